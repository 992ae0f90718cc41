"""Simulated MPI: see sim/cluster.py"""
