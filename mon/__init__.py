"""Runtime monitors for ampform-dpd: workloads, oracles and verdicts."""
