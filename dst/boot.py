"""Process start-up: environment, TensorFlow in TF1 mode, TensorD imported from /repo through the seams."""
import os
import sys

REPO = os.environ.get('TENSORD_REPO', '/repo')
ENV = {
    'PYTHONDONTWRITEBYTECODE': '1', 'TF_CPP_MIN_LOG_LEVEL': '3', 'CUDA_VISIBLE_DEVICES': '',
    'TF_ENABLE_ONEDNN_OPTS': '0', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
    'MKL_NUM_THREADS': '1', 'MPLBACKEND': 'Agg',
}
_done = False


def boot():
    """Import TensorFlow (TF1 mode) and TensorD exactly once, with tf.Session behind the simulator's seam."""
    global _done
    if _done:
        return
    _done = True
    for k, v in ENV.items():
        os.environ[k] = v
    sys.dont_write_bytecode = True
    import logging
    import warnings
    warnings.simplefilter('ignore')
    import tensorflow as tf2
    tf2.config.threading.set_intra_op_parallelism_threads(1)
    tf2.config.threading.set_inter_op_parallelism_threads(1)
    import tensorflow.compat.v1 as tf1
    tf1.disable_v2_behavior()
    tf1.logging.set_verbosity(tf1.logging.FATAL)
    logging.getLogger('tensorflow').setLevel(logging.FATAL)
    sys.modules['tensorflow'] = tf1
    from . import graph, summary
    graph.install(tf1)
    summary.install()
    sys.path.insert(0, REPO)
    import tensorD.factorization.env  # noqa: F401


def tf():
    boot()
    return sys.modules['tensorflow']
