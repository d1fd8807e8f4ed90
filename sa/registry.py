"""property id -> rule function"""
RULES = {
    "P01": "jobs.p01",
    "P02": "jobs.p02",
    "P03": "jobs.p03",
    "P04": "jobs.p04",
    "P05": "cli.p05",
    "P06": "cli.p06",
    "P11": "opts.p11",
    "P12": "dng.p12",
    "P13": "ftp.p13",
    "P14": "ftp.p14",
    "P15": "ftp.p15",
    "P16": "ftp.p16",
    "P17": "ftp.p17",
    "P18": "ftp.p18",
    "P19": "ftp.p19",
    "P20": "ftp.p20",
    "P26": "tiff.p26", "P27": "tiff.p27", "P30": "tiff.p30",
    "P28": "dng.p28",
    "P31": "data.p31",
    "P29": "meta.p29",
    "P36": "opts.p36",
    "P37": "makedng.p37",
    "P38": "analyze.p38",
    "P34": "camdb.p34", "P25": "sizes.p25", "P22": "ends.p22", "P23": "places.p23",
    "P09": "orig.p09", "P10": "orig.p10",
    "P24": "determ.p24", "P35": "errors.p35",
    "P07": "inputs.p07", "P08": "inputs.p08", "P33": "inputs.p33",
}
