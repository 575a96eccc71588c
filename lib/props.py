"""Per property: what decides it. `units`: Verus units and the functions of each
whose obligations belong to the property; `rests`: functions of other
properties that the argument relies on (a failure of theirs alone is reported
by those); `kani`: harness parts (spec/kani or
lib/kanigen.py)."""

STD = ['the Rust compiler, the standard library and the third-party crates termcolor and derivative behave as documented',
       'Kani: symbolic byte slices have any length below 2^40 (the largest object its pointer encoding addresses)']
VER = ['Verus: sequences of any length; machine integers are checked for overflow; a slice has at most isize::MAX bytes']
TVR, CVR, CCI = 'TerminalVerificationResults', 'CardVerificationResults', 'CommonCoreIdentifier'
BITFLAGS = [TVR, 'TransactionStatusInformation', CCI, CVR, 'AdditionalTerminalCapabilities', 'TerminalCapabilities',
            'CardholderVerificationRule', 'CardholderVerificationMethodResults']

MASK = ['is_masked_u8', 'is_masked_str', 'from_u8_check_for_masked']
HEX = ['parse_hex_str', 'parse_hex_str_strict', 'nibble_to_char', 'bytes_to_str', 'trim_leading_0_bytes', 'num_dec_digits']
PROCESS = ['identify_tag', 'get_raw_tag', 'annotate_raw', 'parse_raw', 'parse_raw_unrecognised', 'process_emv_tag', 'tag_try_from', 'node_try_from', 'block_try_from']
SORT = ['get_raw_tag', 'ptag_cmp', 'ptag_partial_cmp', 'tag_cmp', 'tag_partial_cmp', 'node_cmp', 'node_partial_cmp', 'sort_nodes']
REPORT = ['print_indentation', 'print_bytes_small', 'print_bytes', 'print_bytes_pretty', 'bold_colour_spec', 'header_colour_spec', 'len', 'print_tag_name',
          'raw_display', 'tag_display', 'node_display', 'block_display']

SHORT = {'tvr': TVR, 'tsi': 'TransactionStatusInformation', 'cci': CCI, 'cvr': CVR, 'atc': 'AdditionalTerminalCapabilities',
         'tc': 'TerminalCapabilities', 'rule': 'CardholderVerificationRule', 'cvmr': 'CardholderVerificationMethodResults'}
FIELDS = {'cci': ['FormatCode', 'CryptogramVersion'], 'cvr': ['GenAc2ApplicationCryptogramType', 'GenAc1ApplicationCryptogramType'], 'cvmr': ['CvmResult']}
RULE = ['OptionalCvMethod', 'OptionalCvmCondition']


def coding(u):
    """decoding and encoding of a flag value, and of its code fields"""
    n = SHORT[u]
    out = [f'{n}.USED_BITS_MASK', f'{n}.try_from', f'{n}.get_binary_representation']
    for e in FIELDS.get(u, []):
        out += [f'{e}.try_from', f'{e}.code']
    if u in ('rule', 'cvmr'):
        out += [f'{e}.{f}' for e in RULE for f in ('from', 'code')]
    return out


def shown(u):
    """the explanation list of a flag value, and the text of its code fields"""
    out = [f'{SHORT[u]}.get_bit_display_information'] + [f'{e}.fmt' for e in FIELDS.get(u, [])]
    if u in ('rule', 'cvmr'):
        out += [f'{e}.fmt' for e in RULE]
    return out


def codes(*names, ops=('try_from', 'code', 'fmt')):
    return [f'{n}.{f}' for n in names for f in ops]


DIGITS = ['Interchange', 'Technology', 'AuthorisationProcessing', 'AllowedServices', 'PinRequirements']
CVM = ['CvMethod', 'CvmCondition']
CODES = codes('TransactionType', 'TerminalType', *CVM, 'CvmResult', 'FormatCode', 'CryptogramVersion', 'GenAc1ApplicationCryptogramType', 'GenAc2ApplicationCryptogramType') \
    + codes('PosEntryMode', ops=('try_from', 'fmt')) + codes(*RULE, ops=('from', 'code', 'fmt'))

ONEBYTE = [f'{n}.{f}' for n in ('TransactionType', 'TerminalType', 'PosEntryMode') for f in ('from_bytes', 'display_breakdown')]

NUMBERS = ['byte_slice_to_u32', 'byte_slice_to_u64']
ARC = [f'AuthorisationResponseCode.{f}' for f in ('try_from', 'from_bytes', 'fmt', 'display_breakdown')]
SERVICE = codes(*DIGITS, ops=('from', 'fmt')) + ['parse_str_to_u16'] + [f'ServiceCode.{f}' for f in ('try_from', 'from_bytes', 'display_breakdown')]
IAD = ['FormatSpecificData.parse_format_data', 'IssuerApplicationData.try_from', 'IssuerApplicationData.display_breakdown', 'print_bytes']
CVMLIST = ['CvmCondition.references_x_or_y_value', 'CardholderVerificationMethodList.try_from', 'CardholderVerificationMethodList.display_breakdown']
IAC = [f'IssuerActionCode{n}.{f}' for n in ('Default', 'Denial', 'Online') for f in ('default', 'try_from', 'display_breakdown')]
BASIC = ['TagClass.try_from', 'TagClass.fmt', 'DataObjectType.fmt', 'parse_tag_metadata', 'TagBasicInfo.try_from', 'TagBasicInfo.display_breakdown']

PROPS = {
    'C01': dict(units={'ber': ['parse', 'parse_at_depth'], 'numbers': ['byte_slice_to_u32'], 'basic': ['TagClass.try_from', 'parse_tag_metadata']}, rests={'mask': ['from_u8_check_for_masked', 'is_masked_u8']}, kani=['helpers']),
    'C02': dict(crash_only=True, units={'ber': ['parse', 'parse_at_depth', 'get_child_block'], 'mask': MASK, 'hex': HEX, 'ingenico': ['parse'],
                       'auto': ['parse'], 'process': PROCESS, 'sort': ['sort_nodes'], 'report': REPORT, 'depth': [], 'main': ['main'],
                       'diagram': ['display_breakdown'], 'codes': CODES + codes(*DIGITS, ops=('from', 'fmt')), 'onebyte': ONEBYTE, 'arc': ARC, 'service': SERVICE, 'iad': IAD, 'cvmlist': CVMLIST, 'iac': IAC, 'basic': BASIC, 'numbers': NUMBERS,
                       **{f'flags_{u}': coding(u) + shown(u) for u in SHORT}}),
    'C03': dict(units={'mask': MASK}, rests={'ber': ['parse_at_depth'], 'ingenico': ['parse'], 'process': ['process_emv_tag'], 'report': ['len', 'raw_display']}),
    'C04': dict(units={'ingenico': ['parse'], 'hex': ['trim_leading_0_bytes']},
                rests={'hex': ['parse_hex_str', 'parse_hex_str_strict'], 'numbers': ['byte_slice_to_u32'], 'basic': ['TagClass.try_from', 'parse_tag_metadata'], 'mask': ['is_masked_str', 'from_u8_check_for_masked'], 'ber': ['get_child_block']}, kani=['helpers']),
    'C05': dict(units={'auto': ['parse']}, rests={'ingenico': ['parse'], 'ber': ['parse'], 'hex': ['parse_hex_str']}),
    'C06': dict(units={'hex': HEX, 'numbers': NUMBERS, 'service': ['parse_str_to_u16']}, kani=['helpers']),
    'C07': dict(units={'ber': ['get_child_block', 'parse_at_depth']}, rests={'ber': ['parse'], 'ingenico': ['parse']}),
    'C08': dict(units={'process': ['process_emv_tag', 'tag_try_from', 'node_try_from', 'block_try_from', 'get_raw_tag']}),
    'C09': dict(units={'process': ['identify_tag', 'process_emv_tag'], 'basic': BASIC}, kani=['identify', 'helpers']),
    'C10': dict(units={'process': ['process_emv_tag', 'annotate_raw', 'parse_raw', 'parse_raw_unrecognised']}),
    'C11': dict(units={f'flags_{u}': coding(u) for u in SHORT}),
    'C12': dict(units={f'flags_{u}': shown(u) for u in SHORT}),
    'C13': dict(units={'codes': CODES, 'onebyte': ONEBYTE, 'arc': ARC}, kani=['one_byte', 'arc', 'arc_codes']),
    'C14': dict(units={'flags_rule': coding('rule') + shown('rule'), 'cvmlist': CVMLIST}, rests={'numbers': ['byte_slice_to_u32'], 'hex': ['num_dec_digits']}, kani=['helpers']),
    'C15': dict(units={'flags_cci': coding('cci'), 'flags_cvr': coding('cvr'), 'iad': IAD}, kani=['value']),
    'C16': dict(units={'service': SERVICE}, rests={'hex': ['bytes_to_str']}, kani=['svc', 'codes']),
    'C17': dict(units={'sort': SORT}),
    'C18': dict(units={'report': REPORT, 'depth': []}),
    'C19': dict(units={'diagram': ['display_breakdown'], **{f'flags_{u}': [f'{n}.get_bit_display_information'] for u, n in SHORT.items()}}),
    'C20': dict(units={'config': ['default', 'Config.default', 'figment', 'apply_cli_arguments'], 'main': ['main']}, rests={'colour': ['try_from']}, search_s=15),
    'C21': dict(units={'colour': ['default', 'from_setting', 'try_from', 'change_based_on_tty', 'from_choice', 'name']}),
    'C22': dict(units={'flags_tvr': coding('tvr') + shown('tvr'), 'iac': IAC}, kani=['iac']),
    'C23': dict(units={'main': ['main'], 'errors': ['ParseError.fmt', 'TlvFormat.fmt']}, rests={'config': ['figment', 'apply_cli_arguments'], 'colour': ['change_based_on_tty', 'from_choice']}, search_s=15),
}
for _p in PROPS.values():
    _p.setdefault('units', {})
    _p.setdefault('kani', [])
    _p.setdefault('level', 'proof' if _p['units'] or _p['kani'] else 'exploration')
    _p['assumptions'] = STD + (VER if _p['units'] else []) + _p.get('assumptions', [])

NOT_APPLICABLE = {}
