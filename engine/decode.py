import numpy as np


def decode_inputs(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            if 'c' in v:
                out[k] = np.array([complex(a, b) for a, b in v['c']]).reshape(v['shape'])
            else:
                out[k] = np.array(v['r'], float).reshape(v['shape'])
        else:
            out[k] = v
    return out
