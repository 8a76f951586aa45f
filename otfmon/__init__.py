"""Runtime-monitoring harness for pyOTF: workloads, monitors (oracles) and verdicts."""
