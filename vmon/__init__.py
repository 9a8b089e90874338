"""Runtime monitors for pymap3d: workloads, instrumentation and oracles."""
