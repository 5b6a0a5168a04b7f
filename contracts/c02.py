"""C02: posteriors of univariate continuous models"""
from .common import CONTINUOUS_MODELS
from .posterior import register

register("C02", CONTINUOUS_MODELS)
