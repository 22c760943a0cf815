def check_estimator(e):
    pass
