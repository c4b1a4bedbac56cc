"""Deterministic simulation of aspsim: scheduler, simulated disk and clock, models, checks."""
