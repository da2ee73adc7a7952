from .binning import OptimalPWBinning
from .continuous_binning import ContinuousOptimalPWBinning
__all__ = ['OptimalPWBinning', 'ContinuousOptimalPWBinning']
