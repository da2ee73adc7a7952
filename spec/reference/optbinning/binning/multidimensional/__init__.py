from .binning_2d import OptimalBinning2D
from .continuous_binning_2d import ContinuousOptimalBinning2D
__all__ = ['ContinuousOptimalBinning2D', 'OptimalBinning2D']
