"""The few parts of scikit-learn that python/bitboost/sklearn.py uses (scikit-learn itself is not installed here)."""
