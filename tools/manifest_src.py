DEFAULT_NOTE = ('bounded: every feasible path of the harness within the '
                'bounds in harness/<id>.py is decided by z3; nothing is '
                'claimed beyond them')
NOTES = {}
NOT_APPLICABLE = {}
