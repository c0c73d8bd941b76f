"""Process bootstrap: import TensorFlow (v1 graph API) from the sandbox venv,
zhusuan from /repo's working tree, z3 from the verification venv."""
import os
import sys
import types

os.environ.setdefault('CUDA_VISIBLE_DEVICES', '-1')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('TF_ENABLE_ONEDNN_OPTS', '0')
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if REPO not in sys.path:
    sys.path.insert(0, REPO)
if VT not in sys.path:
    sys.path.append(VT)

import warnings
warnings.filterwarnings('ignore')
import tensorflow as _tf2                  # noqa
tf = _tf2.compat.v1
tf.disable_v2_behavior()
tf.__path__ = list(tf.__path__) + list(_tf2.__path__)
sys.modules['tensorflow'] = tf
import logging
logging.getLogger('tensorflow').setLevel(logging.FATAL)
tf.logging.set_verbosity(tf.logging.FATAL)
import numpy as np                         # noqa
import z3                                  # noqa
