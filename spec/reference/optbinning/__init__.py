from ._version import __version__
from .binning import BinningProcess
from .binning import ContinuousOptimalBinning
from .binning import MDLP
from .binning import MulticlassOptimalBinning
from .binning import OptimalBinning
from .binning.distributed import BinningProcessSketch
from .binning.distributed import OptimalBinningSketch
from .binning.multidimensional import ContinuousOptimalBinning2D
from .binning.multidimensional import OptimalBinning2D
from .binning.piecewise import ContinuousOptimalPWBinning
from .binning.piecewise import OptimalPWBinning
from .binning.uncertainty import SBOptimalBinning
from .scorecard import Scorecard
__all__ = ['__version__', 'BinningProcess', 'BinningProcessSketch', 'ContinuousOptimalBinning', 'ContinuousOptimalBinning2D', 'ContinuousOptimalPWBinning', 'MDLP', 'MulticlassOptimalBinning', 'OptimalBinning', 'OptimalBinningSketch', 'OptimalBinning2D', 'OptimalPWBinning', 'SBOptimalBinning', 'Scorecard']
