"""Virtual clock used while a run is active outside a scheduler."""
ACTIVE = False
now = 0.0
slept = 0.0
