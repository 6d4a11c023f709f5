"""Deterministic simulation of lamberthub: seams, scheduler, fault injection, oracles."""
