NUM = "reference arithmetic: java/Num.java double-double override, self-tested by spec/NumSelf.tla in setup"
REG = {
    "P01": {"level": "model_checking", "sessions": [{"driver": "p01.py", "module": "P01"}], "assumptions": ["index positions below 2^31"]},
    "P02": {"level": "model_checking", "sessions": [{"driver": "p02.py", "module": "P02"}], "assumptions": [NUM]},
    "P03": {"level": "model_checking", "sessions": [{"driver": "p03.py", "module": "P03", "gen": {"module": "FactorGen", "cfg": "FactorGen"}}], "assumptions": [NUM]},
    "P04": {"level": "model_checking", "sessions": [{"driver": "p04.py", "module": "P04"}], "assumptions": [NUM]},
    "P05": {"level": "model_checking", "sessions": [{"driver": "p05.py", "module": "P05", "gen": {"module": "MemoGen", "cfg": "MemoGen"}}], "assumptions": [NUM]},
    "P12": {"level": "model_checking", "sessions": [{"driver": "p12.py", "module": "P12", "gen": {"module": "LmmGen", "cfg": "LmmGen"}}], "assumptions": [NUM]},
    "P06": {"level": "model_checking", "sessions": [{"driver": "p06.py", "module": "P06"}], "assumptions": [NUM]},
    "P07": {"level": "model_checking", "sessions": [{"driver": "p07.py", "module": "P07"}], "assumptions": [NUM]},
    "P08": {"level": "model_checking", "sessions": [{"driver": "p08.py", "module": "P08"}], "assumptions": [NUM]},
    "P09": {"level": "model_checking", "sessions": [{"driver": "p09.py", "module": "P09"}], "assumptions": [NUM]},
    "P10": {"level": "model_checking", "sessions": [{"driver": "p10.py", "module": "P10"}], "assumptions": [NUM]},
    "P11": {"level": "model_checking", "sessions": [{"driver": "p11.py", "module": "P11", "gen": {"module": "DesignGen", "cfg": "DesignGen"}}], "assumptions": [NUM]},
    "P14": {"level": "model_checking", "sessions": [{"driver": "p14.py", "module": "P14"}], "assumptions": [NUM]},
    "P15": {"level": "model_checking", "sessions": [{"driver": "p15.py", "module": "P15"}], "assumptions": [NUM]},
    "P16": {"level": "model_checking", "sessions": [{"driver": "p16.py", "module": "P16"}], "assumptions": [NUM]},
    "P17": {"level": "model_checking", "sessions": [{"driver": "p17.py", "module": "P17"}], "assumptions": [NUM]},
    "P18": {"level": "model_checking", "sessions": [{"driver": "p18.py", "module": "P18"}], "assumptions": [NUM]},
    "P20": {"level": "model_checking", "sessions": [{"driver": "p20.py", "module": "P20"}], "assumptions": [NUM]},
    "P19": {"level": "model_checking", "sessions": [{"driver": "p19.py", "module": "P19"}], "assumptions": [NUM]},
    "P21": {"level": "model_checking", "sessions": [{"driver": "p21.py", "module": "P21", "gen": {"module": "RobGen", "cfg": "RobGen"}}], "assumptions": [NUM]},
    "P13": {"level": "model_checking", "sessions": [{"driver": "p13.py", "module": "P13", "gen": {"module": "FormGen", "cfg": "FormGen"}}], "assumptions": [NUM]},
    "P22": {"level": "model_checking", "sessions": [{"driver": "p22.py", "module": "P22", "gen": {"module": "DataGen", "cfg": "DataGen"}}], "assumptions": [NUM]},
    "P23": {"level": "model_checking", "sessions": [{"driver": "p23.py", "module": "P23", "gen": {"module": "MultGen", "cfg": "MultGen"}}], "assumptions": [NUM]},
    "P24": {"level": "model_checking", "sessions": [{"driver": "p24.py", "module": "P24"}], "assumptions": [NUM]},
    "P25": {"level": "model_checking", "sessions": [{"driver": "p25.py", "module": "P25"}], "assumptions": [NUM]},
    "P26": {"level": "model_checking", "sessions": [{"driver": "p26.py", "module": "P26"}], "assumptions": [NUM]},
    "P27": {"level": "model_checking", "sessions": [{"driver": "p27.py", "module": "P27"}], "assumptions": [NUM]},
    "P28": {"level": "model_checking", "sessions": [{"driver": "p28.py", "module": "P28"}], "assumptions": [NUM]},
}
