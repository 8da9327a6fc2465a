# property id -> how its check is built
# directories of /repo/src (or single files) whose sources are compiled into an archive for the harness
import os
STANDIN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "h", "standin")
SYS = ["system"]
CONC = ["concurrent"] + SYS
NET = CONC + ["network"]
RPC = NET + ["network/rpc"]
JSON = SYS + ["concurrent", "text", "text/json", "data/string"]
CHECKS = {
    "C01": dict(kind="mc", harness="h/c01.cpp", src=CONC),
    "C02": dict(kind="mc", harness="h/c02.cpp", src=CONC),
    "C04": dict(kind="mc", harness="h/c04.cpp", src=CONC),
    "C06": dict(kind="mc", harness="h/c06.cpp", src=CONC),
    "C05": dict(kind="mc", harness="h/c05.cpp", src=CONC),
    "C07": dict(kind="mc", harness="h/c07.cpp", src=CONC),
    "C08": dict(kind="mc", harness="h/c08.cpp", src=NET),
    "C11": dict(kind="mc", harness="h/c11.cpp", src=NET),
    "C09": dict(kind="mc", harness="h/c09.cpp", src=RPC),
    "C10": dict(kind="mc", harness="h/c10.cpp", src=RPC),
    "C03": dict(kind="mc", harness="h/c03.cpp", src=CONC),
    "C13": dict(kind="seq", harness="h/c13.cpp", src=SYS+["concurrent"], hflags=["-O0"]),
    "C15": dict(kind="seq", harness="h/c15.cpp", src=JSON),
    "C14": dict(kind="seq", harness="h/c14.cpp", src=JSON),
    "C12": dict(kind="mc", harness="h/c12.cpp", src=NET+["network/http", "data/encoding"]),
    "C30": dict(kind="seq", harness="h/c30.cpp", src=CONC+["network", "network/http", "data/encoding", "text/xhtml.cpp", "network/cgi/inserter.cpp", "network/cgi/xhtml_builder.cpp"]),
    "C36": dict(kind="seq", harness="h/c36.cpp", src=CONC+["network", "network/http", "data/encoding", "text/xhtml.cpp", "network/cgi"]),
    "C37": dict(kind="mc", harness="h/c37.cpp", src=NET+["network/http", "data/encoding", "text/xhtml.cpp", "network/cgi"]),
    "C17": dict(kind="seq", harness="h/c17.cpp", src=["text/csv.cpp"]),
    "C20": dict(kind="seq", harness="h/c20.cpp", src=["data/code/code.cpp", "system"]),
    "C18": dict(kind="seq", harness="h/c18.cpp", src=["data/encoding"]),
    "C19": dict(kind="seq", harness="h/c19.cpp", src=["data/digest", "system", "concurrent"]),
    "C21": dict(kind="seq", harness="h/c21.cpp", src=["data/sparse_matrix", "data/code", "system"]),
    "C22": dict(kind="seq", harness="h/c22.cpp", src=["data/string"]),
    "C23": dict(kind="seq", harness="h/c23.cpp", src=["data/string"]),
    "C24": dict(kind="seq", harness="h/c24.cpp", src=["data/string"]),
    "C25": dict(kind="seq", harness="h/c25.cpp", src=["system"]),
    "C26": dict(kind="seq", harness="h/c26.cpp", src=["system"]),
    "C27": dict(kind="seq", harness="h/c27.cpp", src=["system"]),
    "C28": dict(kind="seq", harness="h/c28.cpp", src=["system", "math/random"]),
    "C31": dict(kind="seq", harness="h/c31.cpp", src=["data/config_file.cpp"]),
    "C32": dict(kind="seq", harness="h/c32.cpp", src=["network/ipv4.cpp"], flags=["-ftrivial-auto-var-init=zero"]),
    "C33": dict(kind="seqfast", harness="h/c33.cpp", src=["system"]),
    "C34": dict(kind="seq", harness="h/c34.cpp", src=["system"]),
    "C35": dict(kind="seq", harness="h/c35.cpp", src=["system", "database/postgresql", "database/mysql"], flags=["-I/usr/include/postgresql", "-I/usr/include/mariadb"], hflags=["-DPROP=35"]),
    "C38": dict(kind="seq", harness="h/c35.cpp", src=["system", "database/postgresql", "database/mysql"], flags=["-I/usr/include/postgresql", "-I/usr/include/mariadb"], hflags=["-DPROP=38"]),
    "C39": dict(kind="mc", harness="h/c39.cpp", src=NET+["network/mprpc"], flags=["-I" + STANDIN]),
    "C40": dict(kind="mc", harness="h/c40.cpp", src=NET+["network/mprpc"], flags=["-I" + STANDIN]),
    "C41": dict(kind="seq", harness="h/c41.cpp", src=CONC+["network", "network/http", "data/encoding", "text/xhtml.cpp", "network/cgi"], flags=["-I" + STANDIN, "-DHAVE_FCGIAPP_H=1"]),
    "C42": dict(kind="seq", harness="h/c42.cpp", src=["system"], hflags=["-O0"]),
    "C43": dict(kind="seqfast", harness="h/c43.cpp", src=["system"]),
    "C44": dict(kind="mc", harness="h/c44.cpp", src=NET+["network/http", "network/cgi", "data/encoding", "data/digest", "data/string", "data/code", "data/config_file.cpp", "text", "text/json", "math/random"]),
    "C29": dict(kind="seq", harness="h/c29.cpp", src=["network/uri.cpp"]),
    "C16": dict(kind="seq", harness="h/c16.cpp", src=JSON, hflags=["-O0"]),
}
