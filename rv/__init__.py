"""Runtime-verification harness for pyartemis/artemis (see DESIGN.md)."""
