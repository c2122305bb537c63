"""Deterministic simulation of lecram/coral with fault injection."""
