import numpy as np
from sklearn.metrics import auc
from sklearn.metrics import confusion_matrix
from sklearn.metrics import roc_curve

def gini(y_true, y_pred_proba):
    fpr, tpr, _ = roc_curve(y_true, y_pred_proba)
    return 2 * auc(fpr, tpr) - 1

def ks(y_true, y_pred_proba):
    n_samples = y_true.shape[0]
    n_event = np.sum(y_true)
    n_nonevent = n_samples - n_event
    idx = np.argsort(y_pred_proba)
    yy = y_true[idx]
    pp = np.asarray(y_pred_proba)[idx]
    cum_event = np.cumsum(yy)
    cum_population = np.arange(1, n_samples + 1)
    cum_nonevent = cum_population - cum_event
    p_event = cum_event / n_event
    p_nonevent = cum_nonevent / n_nonevent
    last = np.append(pp[1:] != pp[:-1], True)
    p_diff = np.where(last, p_nonevent - p_event, -1)
    ks_max_idx = np.argmax(p_diff)
    ks_score = p_diff[ks_max_idx]
    return (ks_score, ks_max_idx)

def imbalanced_classification_metrics(y_true, y_pred):
    tn, fp, fn, tp = confusion_matrix(y_true, y_pred).ravel()
    tpr = tp / (tp + fn)
    tnr = tn / (fp + tn)
    fpr = 1.0 - tnr
    fnr = 1.0 - tpr
    balanced_accuracy = 0.5 * (tpr + tnr)
    dp = np.sqrt(3) / np.pi * (np.log(tpr / (1 - tnr)) + np.log(tnr / (1 - tpr)))
    d_metrics = {'True positive rate': tpr, 'True negative rate': tnr, 'False positive rate': fpr, 'False negative rate': fnr, 'Balanced accuracy': balanced_accuracy, 'Discriminant power': dp}
    return d_metrics
