from scp_common import *
