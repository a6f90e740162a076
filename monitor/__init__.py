"""Runtime monitors for popsynth."""
