from .timing import check_registry as check
