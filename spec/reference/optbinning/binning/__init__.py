from .binning import OptimalBinning
from .binning_process import BinningProcess
from .continuous_binning import ContinuousOptimalBinning
from .mdlp import MDLP
from .multiclass_binning import MulticlassOptimalBinning
__all__ = ['BinningProcess', 'ContinuousOptimalBinning', 'MDLP', 'MulticlassOptimalBinning', 'OptimalBinning']
