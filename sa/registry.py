from checks import argdecl, cascade, cli, content, context, effects, formatters, js, limits, options, select, settings, tables, texts, typo, verbatim

CHECKS = {
    "C01": cli.C01, "C02": cli.C02, "C03": cli.C03, "C04": cli.C04, "C05": cli.C05,
    "C06": select.C06, "C07": options.C07,
    "C08": js.C08, "C09": settings.C09, "C10": effects.C10, "C15": formatters.C15, "C16": formatters.C16, "C18": effects.C18, "C11": js.C11,
    "C21": content.C21, "C22": verbatim.C22, "C24": context.C24, "C25": texts.C25, "C26": tables.C26, "C45": texts.C45, "C46": texts.C46, "C27": typo.C27, "C29": argdecl.C29, "C12": cascade.C12, "C13": limits.C13, "C14": cascade.C14,
}
