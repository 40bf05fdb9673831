"""Rewrites the table of planted bugs at the end of DESIGN.md (documentation only)."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
MARK = "<!-- planted bugs -->"
STRENGTHENED = {
    "c19-sizer_dict_cache": "other sizers asked before",
    "c22-corners_slice_cache": "another quantity of the same shape filled before",
    "c25-read_cache": "a file written and read several times",
    "c09-vec_rotate_dims": "components of different types; np.stack modelled",
    "c12-scatter_view": "results share no memory with the root's data, layouts with one rank",
    "c13-gather_cache": "results of separate gathers are independent",
    "c15-buffer_name_key": "byte order and names of types in the histories",
    "c22-corner_halo_cap": "halos only at the sides where a tile corner is",
    "c23-tracer_first": "tracer properties that clash with the built-in table",
    "c15-return_twice": "stores with any number of free buffers",
    "c16-timer_warn": "warnings when reading while clocks run",
    "c21-zarr_auto_chunks": "chunks of stored arrays",
    "c23-to_state_replaced": "given entries compared with the original objects",
    "c24-capture_limit": "captures of some megabytes",
    "c12-scatter_client_meta": "quantities passed on other ranks",
    "c14-scatter_client_time": "states passed on other ranks",
    "c08-isend_float": "an element type per unit; message and buffer types agree",
}
rows = []
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    extra = STRENGTHENED.get(d.name)
    rows.append("| %s | %s | %s | %s |" % (d.name, m["property"], m["needs"], "first missed; added: " + extra if extra else "caught at once"))
text = (ROOT / "DESIGN.md").read_text()
head = text.split(MARK)[0].rstrip() + "\n\n"
(ROOT / "DESIGN.md").write_text(head + MARK + "\n\n| change | caught by | needs | history |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
