class NotDataAddedError(ValueError, AttributeError):
    pass

class NotSolvedError(ValueError, AttributeError):
    pass

class NotGeneratedError(ValueError, AttributeError):
    pass

class CounterfactualsFoundWarning(UserWarning):
    pass
