CXX=["-std=c++17","-I{REPO}/include","-I{VERIF}/common","-fopenmp",'-DRICHDEM_GIT_HASH="x"','-DRICHDEM_COMPILE_TIME="x"',"-w"]
FAST=CXX+["-O2","-DNDEBUG"]
ASAN=CXX+["-O1","-g1","-fsanitize=address","-fno-omit-frame-pointer"]
UBSAN=ASAN+["-fsanitize=undefined","-fno-sanitize-recover=undefined"]
# radix_heap.hpp computes 1<<-1 for an empty bucket and never uses the result; hence no shift checking there
ASSERTING=UBSAN+["-fno-sanitize=shift"]
GDAL=["-DUSEGDAL","-I/usr/include/gdal"]
MPI=["-I{VERIF}/common/mpifake"]+CXX+["-O1","-I{VERIF}/harness"]
H="{VERIF}/harness/"
APPS="rd_compare rd_d8_flowdirs rd_depression_hierarchy rd_depressions_breach rd_depressions_flood rd_depressions_has rd_depressions_mask rd_expand_dimensions rd_fill_spill_merge rd_flood_for_flowdirs rd_flow_accumulation rd_geotransform rd_hist rd_loop_check rd_merge_rasters_by_layout rd_no_data rd_processing_history rd_projection rd_raster_display rd_raster_inspect rd_surface_area rd_taudem_d8_to_richdem_d8 rd_terrain_property".split()
CHECKS={
"C02":dict(builds=[dict(name="fast",srcs=[H+"c02.cpp"],flags=FAST),dict(name="large",srcs=[H+"large.cpp"],flags=FAST+["-DLARGE=2"],hang=180)]),
"C03":dict(builds=[dict(name="fast",srcs=[H+"c03.cpp"],flags=FAST),dict(name="large",srcs=[H+"large.cpp"],flags=FAST+["-DLARGE=3"],hang=180)]),
"C04":dict(builds=[dict(name="fast",srcs=[H+"c04.cpp"],flags=FAST),dict(name="large",srcs=[H+"large.cpp"],flags=FAST+["-DLARGE=4"],hang=180)]),
"C05":dict(builds=[dict(name="fast",srcs=[H+"c05.cpp"],flags=FAST),dict(name="large",srcs=[H+"large.cpp"],flags=FAST+["-DLARGE=5"],hang=180)]),
"C06":dict(builds=[dict(name="fast",srcs=[H+"c06.cpp"],flags=FAST),dict(name="large",srcs=[H+"large.cpp"],flags=FAST+["-DLARGE=6"],hang=180)]),
"C08":dict(builds=[dict(name="fast",srcs=[H+"c08.cpp"],flags=FAST),dict(name="large",srcs=[H+"large.cpp"],flags=FAST+["-DLARGE=8"],hang=180)]),
"C09":dict(builds=[dict(name="fast",srcs=[H+"c09.cpp"],flags=FAST),dict(name="large",srcs=[H+"large.cpp"],flags=FAST+["-DLARGE=9"],hang=180)]),
"C11":dict(builds=[dict(name="fast",srcs=[H+"c11.cpp"],flags=FAST),dict(name="large",srcs=[H+"large.cpp"],flags=FAST+["-DLARGE=11"],hang=180)]),
"C10":dict(builds=[dict(name="fast",srcs=[H+"c10.cpp"],flags=FAST),dict(name="large",srcs=[H+"large.cpp"],flags=FAST+["-DLARGE=10"],hang=180)]),
"C12":dict(builds=[dict(name="asan",srcs=[H+"c12.cpp"],flags=UBSAN)]),
"C13":dict(builds=[dict(name="asan",srcs=[H+"c13.cpp"],flags=UBSAN)]),
"C14":dict(builds=[dict(name="fast",srcs=[H+"c14.cpp","{REPO}/src/gdal.cpp"],flags=FAST+GDAL,libs=["-lgdal"])]),
"C15":dict(builds=[dict(name="asan",srcs=[H+"c15.cpp","{REPO}/src/gdal.cpp"],flags=UBSAN+GDAL,libs=["-lgdal"])]),
"C16":dict(builds=[dict(name="asan",srcs=[H+"c16.cpp"],flags=UBSAN)]),
"C17":dict(builds=[dict(name="asan",srcs=[H+"c17.cpp","{REPO}/src/gdal.cpp","{REPO}/src/richdem.cpp"],flags=UBSAN+GDAL,libs=["-lgdal"])]),
"C07":dict(builds=[dict(name="fast",srcs=[H+"c07.cpp"],flags=FAST)]),
"C18":dict(builds=[dict(name="pflood.so",srcs=[H+"prank.cpp","{REPO}/src/gdal.cpp","{REPO}/src/richdem.cpp"],flags=MPI+GDAL+["-fPIC","-fno-gnu-unique",'-DPROGRAM_MAIN="{REPO}/programs/parallel_priority_flood/main.cpp"',"-I{REPO}/programs/parallel_priority_flood"],libs=["-lgdal"],shared=True,support=True),dict(name="fast",srcs=[H+"c18.cpp"],flags=MPI+GDAL,ldflags=["-rdynamic"],libs=["-lgdal","-ldl"])]),
"C19":dict(builds=[dict(name="paccum.so",srcs=[H+"prank.cpp","{REPO}/src/gdal.cpp","{REPO}/src/richdem.cpp"],flags=MPI+GDAL+["-fPIC","-fno-gnu-unique",'-DPROGRAM_MAIN="{REPO}/programs/parallel_d8_accum/main.cpp"',"-I{REPO}/programs/parallel_d8_accum"],libs=["-lgdal"],shared=True,support=True),dict(name="fast",srcs=[H+"c19.cpp"],flags=MPI+GDAL,ldflags=["-rdynamic"],libs=["-lgdal","-ldl"])]),
"C23":dict(builds=[dict(name="rank.so",srcs=[H+"c23_rank.cpp"],flags=MPI+["-fPIC","-fno-gnu-unique"],shared=True,support=True),dict(name="fast",srcs=[H+"c23.cpp"],flags=MPI,ldflags=["-rdynamic"],libs=["-ldl"])]),
"C20":dict(builds=[dict(name="omplib.so",srcs=[H+"c20_lib.cpp"],flags=CXX+["-O1","-DNDEBUG","-g1","-fPIC","-fno-gnu-unique","-fsanitize=thread"],shared=True,support=True,no_omp_link=True),dict(name="fast",srcs=[H+"c20.cpp"],flags=FAST,ldflags=["-rdynamic"],libs=["-ldl"],no_omp_link=True)]),
"C21":dict(builds=[dict(name="rndfast.so",srcs=[H+"c21_lib.cpp","{REPO}/src/random.cpp"],flags=FAST+["-fPIC","-fno-gnu-unique"],shared=True,support=True,no_omp_link=True),dict(name="rndlib.so",srcs=[H+"c21_lib.cpp","{REPO}/src/random.cpp"],flags=CXX+["-O1","-DNDEBUG","-g1","-fPIC","-fno-gnu-unique","-fsanitize=thread"],shared=True,support=True,no_omp_link=True),dict(name="fast",srcs=[H+"c21.cpp"],flags=FAST,ldflags=["-rdynamic"],libs=["-ldl"],no_omp_link=True)]),
"C26":dict(builds=[dict(name="fast",srcs=[H+"c26.cpp","{REPO}/src/terrain_generation/terrain_generation.cpp","{REPO}/src/terrain_generation/PerlinNoise.cpp"],flags=FAST+["-I{REPO}/src/terrain_generation"])]),
"C27":dict(builds=[dict(name=n,srcs=[H+"c27.cpp"],flags=ASSERTING+["-DPART=%d"%k]) for k,n in ((1,"fill"),(2,"flow"),(3,"rest"))]),
"C28":dict(builds=[dict(name="fast",srcs=[H+"c28.cpp"],flags=FAST),dict(name="serial",srcs=[H+"c28.cpp"],flags=FAST+["-fno-openmp"],no_omp_link=True),dict(name="quiet",srcs=[H+"c28.cpp"],flags=FAST+["-DRICHDEM_NO_PROGRESS"]),dict(name="log",srcs=[H+"c28_log.cpp","{REPO}/src/richdem.cpp"],flags=FAST+["-DRICHDEM_LOGGING"]),dict(name="nolog",srcs=[H+"c28_log.cpp"],flags=FAST)]),
"C22":dict(builds=[dict(name="fast",srcs=[H+"c22.cpp"],flags=FAST,hang=600)]),
"C24":dict(builds=[dict(name="apps.stamp",srcs=["{REPO}/apps/%s.cpp"%a for a in APPS],flags=CXX+["-O0","-DNDEBUG","-fPIC","-fno-gnu-unique","-Dmain=rd_main"]+GDAL,each=True,support=True),dict(name="fast",srcs=[H+"c24.cpp","{REPO}/src/gdal.cpp","{REPO}/src/richdem.cpp","{REPO}/src/random.cpp"],flags=CXX+["-O1","-DNDEBUG"]+GDAL,ldflags=["-rdynamic"],libs=["-lgdal","-ldl"]),dict(name="layout",script="{VERIF}/harness/c24_layout.py",srcs=[],hang=120)]),
"C25":dict(builds=[dict(name="_richdem.so",srcs=["{REPO}/wrappers/pyrichdem/src/pywrapper.cpp","{REPO}/src/random.cpp","{REPO}/src/richdem.cpp","{REPO}/src/terrain_generation/terrain_generation.cpp","{REPO}/src/terrain_generation/PerlinNoise.cpp"],flags=CXX+["-O0","-DDOCTEST_CONFIG_DISABLE","-fPIC","-fno-gnu-unique","{PYBIND}"],shared=True,support=True),
  dict(name="c25_ref.so",srcs=[H+"c25_ref.cpp","{REPO}/src/random.cpp","{REPO}/src/richdem.cpp","{REPO}/src/terrain_generation/terrain_generation.cpp","{REPO}/src/terrain_generation/PerlinNoise.cpp"],flags=FAST+["-fPIC","-fno-gnu-unique"],shared=True,support=True),
  dict(name="py",script="{VERIF}/harness/c25.py",srcs=[],hang=120)]),
"C01":dict(builds=[dict(name="fast",srcs=[H+"c01.cpp"],flags=FAST),dict(name="large",srcs=[H+"large.cpp"],flags=FAST+["-DLARGE=1"],hang=180)]),
}
NA={}
import texts
for k,v in CHECKS.items(): v.update(texts.T[k])
