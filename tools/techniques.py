NOT_APPLICABLE = {}
_H = "bounded exhaustive exploration of operation histories on the real objects against a reference model"
_I = "bounded exhaustive enumeration of inputs on the real code against a brute-force reference model"
_N = "Complete within the stated bounds (see evidence 'bounds'); values outside the alphabet are not covered. Trusts the reference model in the check, torch's own operators and the CPU path only."
TECH = {
    "C01": (_H, _N),
    "C02": (_H, _N),
    "C03": (_I, _N),
    "C04": (_H, _N),
    "C05": (_I, _N),
    "C06": (_I, _N),
    "C07": (_I, _N),
    "C08": (_I, _N),
    "C09": (_H, _N),
    "C10": (_I, _N),
    "C11": (_I, _N),
    "C12": (_I, _N),
    "C13": (_I, _N),
    "C14": (_I, _N),
    "C15": (_I, _N),
    "C16": (_I, _N),
    "C17": (_I, _N),
    "C18": (_I, _N),
    "C19": (_I, _N),
    "C20": (_I, _N),
    "C21": (_I, _N),
    "C22": (_I, _N),
    "C23": (_I, _N),
    "C24": (_I, _N),
    "C25": (_I, _N),
    "C26": (_I, _N),
    "C27": (_I, _N),
    "C28": (_I, _N),
    "C29": (_H, _N),
    "C30": (_H, _N),
    "C31": (_H, _N),
    "C32": (_H, _N),
    "C33": (_I, _N),
    "C34": (_I, _N),
    "C35": (_H, _N),
    "C36": (_I, _N),
    "C37": (_I, _N),
    "C38": (_I, _N),
    "C39": (_I, _N),
    "C40": (_I, _N),
    "C41": (_I, _N),
    "C42": (_I, _N),
    "C43": (_I, _N),
    "C44": (_I, _N),
    "C45": (_I, _N),
}
