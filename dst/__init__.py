"""Deterministic simulation of knx_stack with fault injection."""
