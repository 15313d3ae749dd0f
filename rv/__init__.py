"""Runtime-monitoring framework for resqpy."""
