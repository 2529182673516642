from checks import c01
def run(ck):
    c01.run(ck, kind="map")
