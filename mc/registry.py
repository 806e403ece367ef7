from .checks import codecs, histories, hosts, isolation, logconfig, parsing, records, schedules, totality

CHECKS = {
    "C01": parsing.c01,
    "C02": parsing.c02,
    "C03": parsing.c03,
    "C04": histories.c04,
    "C05": histories.c05,
    "C06": histories.c06,
    "C07": codecs.c07,
    "C08": codecs.c08,
    "C09": hosts.c09,
    "C10": hosts.c10,
    "C11": hosts.c11,
    "C12": totality.c12,
    "C13": totality.c13,
    "C14": hosts.c14,
    "C15": isolation.c15,
    "C16": schedules.c16,
    "C17": totality.c17,
    "C18": codecs.c18,
    "C19": codecs.c19,
    "C20": parsing.c20,
    "C21": parsing.c21,
    "C22": parsing.c22,
    "C23": parsing.c23,
    "C24": logconfig.c24,
    "C25": records.c25,
    "C26": records.c26,
}
