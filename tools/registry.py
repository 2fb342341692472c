"""Which harness decides which property, and which of /repo's libraries it needs."""
FLAVOURS = {
    "asan": {"cxx": "-fsanitize=address -fno-omit-frame-pointer -g0 -O1", "ld": "-fsanitize=address"},
    "tsan": {"cxx": "-fsanitize=thread -fno-omit-frame-pointer -g0 -O1", "ld": "-fsanitize=thread"},
}
U = ["liblitiv_utils.so"]
F = ["liblitiv_features2d.so"] + U
I = ["liblitiv_imgproc.so"] + F
V = ["liblitiv_video.so"] + I
D = ["liblitiv_datasets.so"] + I
P = ["libvptz.so"] + U
CHECKS = {
    "C01": dict(src="c01_archive.cpp", libs=U),
    "C02": dict(src="c02_buffers.cpp", libs=U),
    "C03": dict(src="c03_distances.cpp", libs=U, qscale=6),
    "C08": dict(src="c08_numeric.cpp", libs=U, qscale=2),
    "C06": dict(src="c06_pool.cpp", libs=U, qscale=5),
    "C07": dict(src="c07_text_fs.cpp", libs=U, qscale=2),
    "C29": dict(src="c29_gmm.cpp", libs=I, qscale=8),
    "C05": dict(src="c05_geometry.cpp", libs=U, qscale=3),
    "C09": dict(src="c09_colour.cpp", libs=U, qscale=8),
    "C10": dict(src="c10_lbsp.cpp", libs=F, qscale=4),
    "C11": dict(src="c11_dasc.cpp", libs=F, qscale=2),
    "C12": dict(src="c12_lss.cpp", libs=F, qscale=12),
    "C13": dict(src="c13_sc.cpp", libs=F, qscale=4),
    "C14": dict(src="c14_mi.cpp", libs=F, qscale=2),
    "C15": dict(src="c15_filters.cpp", libs=I, qscale=6),
    "C16": dict(src="c16_affinity.cpp", libs=I, qscale=12),
    "C17": dict(src="c17_nms_thin.cpp", libs=I, qscale=10),
    "C18": dict(src="c18_warp.cpp", libs=I, qscale=8),
    "C19": dict(src="c19_edges.cpp", libs=I),
    "C20": dict(src="c20_classif.cpp", libs=D, qscale=8),
    "C21": dict(src="c21_metrics.cpp", libs=D, qscale=10),
    "C22": dict(src="c22_stereo.cpp", libs=D, qscale=4),
    "C23": dict(src="c23_precache.cpp", libs=D),
    "C24": dict(src="c24_writer.cpp", libs=D),
    "C27": dict(src="c27_models.cpp", libs=V),
    "C28": dict(src="c28_bgs.cpp", libs=V),
    "C30": dict(src="c30_vptz.cpp", libs=P, qscale=3),
    "C31": dict(src="c31_flow.cpp", libs=["liblitiv_3rdparty_ofdis.a"]),
    "C25": dict(src="c25_dataset.cpp", libs=D, qscale=3),
    "C26": dict(src="c26_boundaries.cpp", libs=D),
    "C32": dict(src="c32_layouts.cpp", libs=D, qscale=2),
    # end of checks
}
NOT_APPLICABLE = {}
