import inspect
class BaseEstimator:
    def get_params(self, deep=True):
        return {n: getattr(self, n) for n in inspect.signature(self.__init__).parameters}
    def set_params(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)
        return self
