"""Deterministic simulation of event-generator (see /verif/DESIGN.md)."""
