"""Deterministic simulation with fault injection for BicycleParameters."""
