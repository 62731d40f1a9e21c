"""Action postprocessing."""
P = "reagent.preprocessing.postprocessor.Postprocessor."


def run(cx):
    cx.same(P + "__init__", "preproc.post_init", "written", "raises", opaque={"get_num_output_features"})
    cx.same(P + "forward", "preproc.post", "ret", opaque={"get_num_output_features"})
