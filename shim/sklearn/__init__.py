"""Stand-in for scikit-learn: pythagoras only uses ParameterGrid."""
