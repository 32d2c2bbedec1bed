from .timing import check_stats as check
