from .timing import check_intervals as check
