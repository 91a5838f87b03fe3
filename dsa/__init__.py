"""Repo-specific static analysis for DedalusProject/dedalus (nothing under /repo is imported or executed)."""
