"""Custom primitives used by generated workloads (multi-output, multi-input)."""
import numpy as np
from featuretools.primitives import AggregationPrimitive, TransformPrimitive
from featuretools.variable_types import Numeric


class SimMinMax(AggregationPrimitive):
    name = "sim_min_max"
    input_types = [Numeric]
    return_type = Numeric
    number_output_features = 2

    def get_function(self):
        def min_max(x):
            return [x.min(), x.max()]
        return min_max


class SimDot(AggregationPrimitive):
    name = "sim_dot"
    input_types = [Numeric, Numeric]
    return_type = Numeric

    def get_function(self):
        def dot(x, y):
            return float((x.fillna(0) * y.fillna(0)).sum())
        return dot


class SimSplit(TransformPrimitive):
    name = "sim_split"
    input_types = [Numeric]
    return_type = Numeric
    number_output_features = 2

    def get_function(self):
        def split(x):
            w = np.floor(x)
            return [w, x - w]
        return split
