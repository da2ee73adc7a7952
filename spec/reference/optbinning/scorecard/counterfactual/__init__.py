from .counterfactual import Counterfactual
__all__ = ['Counterfactual']
