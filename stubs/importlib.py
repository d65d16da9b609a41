import __vp__

import_module = __vp__.import_module
