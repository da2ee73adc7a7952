import numpy as np
from sklearn.metrics import explained_variance_score
from sklearn.metrics import mean_absolute_error
from sklearn.metrics import mean_squared_error
from sklearn.metrics import median_absolute_error
from sklearn.metrics import r2_score

def mean_absolute_percentage_error(y_true, y_pred):
    return np.abs((y_true - y_pred) / y_true).mean()

def median_absolute_percentage_error(y_true, y_pred):
    return np.median(np.abs((y_true - y_pred) / y_true))

def mean_percentage_error(y_true, y_pred):
    return ((y_true - y_pred) / y_true).mean()

def symmetric_mean_absolute_percentage_error(y_true, y_pred):
    e = np.abs(y_true - y_pred)
    return (e / (np.abs(y_true) + np.abs(y_pred))).mean()

def symmetric_median_absolute_percentage_error(y_true, y_pred):
    e = np.abs(y_true - y_pred)
    return np.median(e / (np.abs(y_true) + np.abs(y_pred)))

def regression_metrics(y_true, y_pred):
    variance = explained_variance_score(y_true, y_pred)
    mae = mean_absolute_error(y_true, y_pred)
    mse = mean_squared_error(y_true, y_pred)
    median_ae = median_absolute_error(y_true, y_pred)
    r2 = r2_score(y_true, y_pred)
    mape = mean_absolute_percentage_error(y_true, y_pred)
    mpe = mean_percentage_error(y_true, y_pred)
    smape = symmetric_mean_absolute_percentage_error(y_true, y_pred)
    mdape = median_absolute_percentage_error(y_true, y_pred)
    smdape = symmetric_median_absolute_percentage_error(y_true, y_pred)
    d_metrics = {'Mean absolute error': mae, 'Mean squared error': mse, 'Median absolute error': median_ae, 'Explained variance': variance, 'R^2': r2, 'MPE': mpe, 'MAPE': mape, 'SMAPE': smape, 'MdAPE': mdape, 'SMdAPE': smdape}
    return d_metrics
