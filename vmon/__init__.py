"""Runtime monitors for qopt: workloads, reference models and verdicts."""
