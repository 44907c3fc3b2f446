class OptimizeResult:
    def __init__(self, success, x, fun, status, message, nit, nfev, jac, njev):
        self.success = success
        self.x = x
        self.fun = fun
        self.status = status
        self.message = message
        self.nit = nit
        self.nfev = nfev
        self.jac = jac
        self.njev = njev

    def __getitem__(self, k):
        return getattr(self, k)

    def get(self, k, d=None):
        return getattr(self, k)
