"""A local Spark session per exploring process, and control over how input files are cut into partitions."""
import contextlib
import os

_S = {}
STOPS = []      # sessions the code asked to stop


def start(scratch, cores=2):
    from pyspark.sql import SparkSession
    loc = os.path.join(scratch, 'spark')
    os.makedirs(loc, exist_ok=True)
    os.environ['SPARK_LOCAL_DIRS'] = loc
    s = (SparkSession.builder.appName('mc').master(f'local[{cores}]')
         .config('spark.driver.memory', '1g').config('spark.ui.enabled', 'false')
         .config('spark.sql.shuffle.partitions', '3').config('spark.local.dir', loc)
         .config('spark.sql.warehouse.dir', os.path.join(loc, 'wh'))
         .config('spark.driver.extraJavaOptions', f'-XX:-UsePerfData -Djava.io.tmpdir={loc}')
         .config('spark.ui.showConsoleProgress', 'false').getOrCreate())
    s.sparkContext.setLogLevel('OFF')
    _S['s'], _S['stop'] = s, SparkSession.stop
    # the commands stop the session they get; this one is kept for the next case
    SparkSession.stop = lambda self: STOPS.append(self)
    return s


def session():
    return _S['s']


def stop():
    from pyspark.sql import SparkSession
    s = _S.pop('s', None)
    if s is not None:
        SparkSession.stop = _S.pop('stop')
        gw = s.sparkContext._gateway
        s.stop()
        try:
            gw.shutdown()
            gw.proc.stdin.close()
            gw.proc.wait(20)
        except Exception:
            pass


@contextlib.contextmanager
def cut(max_bytes=1 << 27, min_parts=1, shuffle=3):
    """files are cut into partitions of at most max_bytes, also in the middle of lines"""
    s = session()
    keys = {'spark.sql.files.maxPartitionBytes': str(max_bytes), 'spark.sql.files.openCostInBytes': '1',
            'spark.sql.files.minPartitionNum': str(min_parts), 'spark.sql.shuffle.partitions': str(shuffle)}
    for k, v in keys.items():
        s.conf.set(k, v)
    yield s
