from hca.arrays import Canon, no
from hca import terms as T
from .internal import Exchange, files, reading

TECHNIQUE = "value-graph dataflow analysis of sampling, decoding and scoring over symbolic circuits and sample tables, compared case by case with the reference definition"


def shape_of_predictions(cn, t):
    circ, dets = t.args[1][0], t.args[1][1]
    s = cn.shape_of(dets)
    return (s[0] if s else T.idx(T.mk("attr", dets, "shape", "?"), T.num(0))), no(circ)


def canon():
    return Canon({"decode_using_pymatching": shape_of_predictions, "decode_using_internal_decoder": shape_of_predictions}, sizes={"num_shots"})


def check(c):
    dec = {"decode_using_pymatching", "decode_using_internal_decoder"}
    c.agrees("decoding", "sample_decode_count_correct", "spec_decoding", "sample_decode_count_correct", opaque=dec, post=canon(), raises="set",
             rule="the decoder sees the detector columns and the error model circuit only, and a shot counts when all its observables are predicted")
    c.agrees("decoding", "decode_using_pymatching", "spec_decoding", "decode_using_pymatching", opaque={"detector_error_model_to_pymatching_graph"}, post=canon(), raises="set",
             rule="each row of predictions is decoded from that shot's own detectors on the graph of the given circuit's error model")
    x = Exchange(c)
    files(c, x)
    reading(c, x)
