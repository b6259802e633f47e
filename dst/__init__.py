"""Deterministic simulation of DeepHypergraph: every run is a pure function of one integer seed and the code."""
