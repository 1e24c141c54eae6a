from host_common import *
