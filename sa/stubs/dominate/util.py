def text(s, escape=True):
    if escape:
        sink_text(s)
    else:
        sink_raw(s)


def raw(s):
    sink_raw(s)




