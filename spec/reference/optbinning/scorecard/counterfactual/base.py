from abc import ABCMeta
from abc import abstractmethod
from sklearn.base import BaseEstimator
from ...binning.base import Base
from ...exceptions import CounterfactualsFoundWarning
from ...exceptions import NotGeneratedError

class BaseCounterfactual(Base, BaseEstimator, metaclass=ABCMeta):

    @abstractmethod
    def fit(self):
        pass

    @abstractmethod
    def generate(self):
        pass

    @abstractmethod
    def display(self):
        pass

    @property
    @abstractmethod
    def status(self):
        pass

    def _check_is_generated(self):
        if not self._is_generated:
            raise NotGeneratedError("This {} instance has not generated counterfactuals yet. Call 'generate' with appropriate arguments.".format(self.__class__.__name__))

    def _check_counterfactual_is_found(self):
        if not self._cfs:
            raise CounterfactualsFoundWarning('Neither optimal or feasible counterfactuals were found.')
