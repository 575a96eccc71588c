"""The tables of the EMV books (and ISO 8583 / ISO 7813) that pemv implements.

This file is the oracle: it is written down once and is NOT regenerated from
/repo, so a change to a table in the code disagrees with it.
"""

# value -> (byte count, [(byte, bit mask, field, type, severity, text)])
BITFLAGS = {
    'TerminalVerificationResults': (5, [
        (0, 0x80, 'offline_data_authentication_not_performed', 'bool', 'Normal',
         'Offline data authentication was not performed'),
        (0, 0x40, 'sda_failed', 'bool', 'Error',
         'SDA (Static Data Authentication) failed'),
        (0, 0x20, 'icc_data_missing', 'bool', 'Error',
         'ICC data missing'),
        (0, 0x10, 'terminal_card_exception', 'bool', 'Error',
         'Card appears on terminal exception file'),
        (0, 0x08, 'dda_failed', 'bool', 'Error',
         'DDA (Dynamic Data Authentication) failed'),
        (0, 0x04, 'cda_failed', 'bool', 'Error',
         'CDA (Combined Data Authentication) failed'),
        (1, 0x80, 'icc_terminal_version_mismatch', 'bool', 'Warning',
         'ICC and terminal have different application versions'),
        (1, 0x40, 'expired_application', 'bool', 'Error',
         'Expired application'),
        (1, 0x20, 'application_not_yet_effective', 'bool', 'Error',
         'Application not yet effective'),
        (1, 0x10, 'requested_service_not_allowed', 'bool', 'Error',
         'Requested service not allowed for card product'),
        (1, 0x08, 'new_card', 'bool', 'Warning',
         'New card'),
        (2, 0x80, 'cardholder_verification_unsuccessful', 'bool', 'Warning',
         'Cardholder verification was not successful'),
        (2, 0x40, 'unrecognized_cvm', 'bool', 'Warning',
         'Unrecognised CVM (Cardholder Verification Method)'),
        (2, 0x20, 'pin_try_limit_exceeded', 'bool', 'Error',
         'PIN try limit exceeded'),
        (2, 0x10, 'pin_entry_required_but_no_pinpad', 'bool', 'Error',
         'PIN entry required and PIN pad not present or not working'),
        (2, 0x08, 'pin_entry_required_but_no_entry', 'bool', 'Warning',
         'PIN entry required, PIN pad present, but PIN was not entered (PIN bypass)'),
        (2, 0x04, 'online_pin_entered', 'bool', 'Normal',
         'Online PIN entered'),
        (3, 0x80, 'transaction_exceeds_floor_limit', 'bool', 'Normal',
         'Transaction exceeds floor limit'),
        (3, 0x40, 'consecutive_offline_limit_lower_exceeded', 'bool', 'Normal',
         'Lower consecutive offline limit exceeded'),
        (3, 0x20, 'consecutive_offline_limit_upper_exceeded', 'bool', 'Normal',
         'Upper consecutive offline limit exceeded'),
        (3, 0x10, 'transaction_selected_for_online_processing', 'bool', 'Normal',
         'Transaction selected randomly for online processing'),
        (3, 0x08, 'merchant_forced_transaction_online', 'bool', 'Normal',
         'Merchant forced transaction online'),
        (4, 0x80, 'default_tdol_used', 'bool', 'Normal',
         'Default TDOL (Transaction Certificate Data Object List) used'),
        (4, 0x40, 'issuer_authentication_failed', 'bool', 'Error',
         'Issuer authentication failed'),
        (4, 0x20, 'script_processing_failed_before_final_gen_ac', 'bool', 'Error',
         'Script processing failed before final GENERATE AC'),
        (4, 0x10, 'script_processing_failed_after_final_gen_ac', 'bool', 'Error',
         'Script processing failed after final GENERATE AC'),
    ]),
    'TransactionStatusInformation': (2, [
        (0, 0x80, 'offline_data_authentication_performed', 'bool', 'Normal',
         'Offline data authentication was performed'),
        (0, 0x40, 'cardholder_verification_performed', 'bool', 'Normal',
         'Cardholder verification was performed'),
        (0, 0x20, 'card_risk_management_performed', 'bool', 'Normal',
         'Card risk management was performed'),
        (0, 0x10, 'issuer_authentication_performed', 'bool', 'Normal',
         'Issuer authentication was performed'),
        (0, 0x08, 'terminal_risk_management_performed', 'bool', 'Normal',
         'Terminal risk management was performed'),
        (0, 0x04, 'script_processing_performed', 'bool', 'Normal',
         'Script processing was performed'),
    ]),
    'CommonCoreIdentifier': (1, [
        (0, 0xF0, 'iad_format_code', 'FormatCode', 'Normal',
         'IAD Format Code: {}'),
        (0, 0x0F, 'cryptogram_version', 'CryptogramVersion', 'Normal',
         'Cryptogram Version: {}'),
    ]),
    'CardVerificationResults': (5, [
        (0, 0xC0, 'gen_ac_2_application_cryptogram_type', 'GenAc2ApplicationCryptogramType', 'Normal',
         'Application cryptogram type returned in 2nd GENERATE AC: {}'),
        (0, 0x30, 'gen_ac_1_application_cryptogram_type', 'GenAc1ApplicationCryptogramType', 'Normal',
         'Application cryptogram type returned in 1st GENERATE AC: {}'),
        (0, 0x08, 'cda_performed', 'bool', 'Normal',
         'CDA (Combined Data Authentication) performed'),
        (0, 0x04, 'offline_dda_performed', 'bool', 'Normal',
         'Offline DDA (Dynamic Data Authentication) performed'),
        (0, 0x02, 'issuer_authentication_not_performed', 'bool', 'Warning',
         'Issuer authentication not performed'),
        (0, 0x01, 'issuer_authentication_failed', 'bool', 'Error',
         'Issuer authentication failed'),
        (1, 0xF0, 'pin_try_count', 'u8', 'Normal',
         'PIN try count: {}'),
        (1, 0x08, 'offline_pin_verification_performed', 'bool', 'Normal',
         'Offline PIN verification performed'),
        (1, 0x04, 'offline_pin_verification_failed', 'bool', 'Error',
         'Offline PIN verification performed and PIN not successfully verified'),
        (1, 0x02, 'pin_try_limit_exceeded', 'bool', 'Error',
         'PIN try limit exceeded'),
        (1, 0x01, 'last_online_transaction_not_completed', 'bool', 'Warning',
         'Last online transaction not completed'),
        (2, 0x80, 'offline_transaction_count_limit_lower_exceeded', 'bool', 'Normal',
         'Lower offline transaction count limit exceeded'),
        (2, 0x40, 'offline_transaction_count_limit_upper_exceeded', 'bool', 'Normal',
         'Upper offline transaction count limit exceeded'),
        (2, 0x20, 'offline_cumulative_amount_limit_lower_exceeded', 'bool', 'Normal',
         'Lower cumulative offline amount limit exceeded'),
        (2, 0x10, 'offline_cumulative_amount_limit_upper_exceeded', 'bool', 'Normal',
         'Upper cumulative offline amount limit exceeded'),
        (2, 0x08, 'issuer_discretionary_bit_1', 'bool', 'Normal',
         'Issuer-discretionary bit 1'),
        (2, 0x04, 'issuer_discretionary_bit_2', 'bool', 'Normal',
         'Issuer-discretionary bit 2'),
        (2, 0x02, 'issuer_discretionary_bit_3', 'bool', 'Normal',
         'Issuer-discretionary bit 3'),
        (2, 0x01, 'issuer_discretionary_bit_4', 'bool', 'Normal',
         'Issuer-discretionary bit 4'),
        (3, 0xF0, 'successful_issuer_script_commands_with_secure_messaging', 'u8', 'Normal',
         'Number of successfully processed issuer script commands containing secure messaging: {}'),
        (3, 0x08, 'issuer_script_processing_failed', 'bool', 'Error',
         'Issuer script processing failed'),
        (3, 0x04, 'offline_data_authentication_failed_on_previous_transaction', 'bool', 'Warning',
         'Offline data authentication failed on previous transaction'),
        (3, 0x02, 'go_online_on_next_transaction', 'bool', 'Normal',
         'Go online on next transaction'),
        (3, 0x01, 'unable_to_go_online', 'bool', 'Warning',
         'Unable to go online'),
    ]),
    'AdditionalTerminalCapabilities': (5, [
        (0, 0x80, 'txn_cash', 'bool', 'Normal',
         'Cash'),
        (0, 0x40, 'txn_goods', 'bool', 'Normal',
         'Goods'),
        (0, 0x20, 'txn_services', 'bool', 'Normal',
         'Services'),
        (0, 0x10, 'txn_cashback', 'bool', 'Normal',
         'Cashback'),
        (0, 0x08, 'txn_inquiry', 'bool', 'Normal',
         "Inquiry (request for information about one of the cardholder's accounts)"),
        (0, 0x04, 'txn_transfer', 'bool', 'Normal',
         'Transfer (between cardholder accounts at the same financial institution)'),
        (0, 0x02, 'txn_payment', 'bool', 'Normal',
         'Payment (from a cardholder account to another party)'),
        (0, 0x01, 'txn_administrative', 'bool', 'Normal',
         'Administrative'),
        (1, 0x80, 'txn_cash_deposit', 'bool', 'Normal',
         'Cash Deposit (into a bank account related to an application on the card used)'),
        (2, 0x80, 'input_numeric_keys', 'bool', 'Normal',
         'Numeric keys'),
        (2, 0x40, 'input_alphabetic_and_special_keys', 'bool', 'Normal',
         'Alphabetic and special characters keys'),
        (2, 0x20, 'input_command_keys', 'bool', 'Normal',
         'Command keys'),
        (2, 0x10, 'input_function_keys', 'bool', 'Normal',
         'Function keys'),
        (3, 0x80, 'output_print_attendant', 'bool', 'Normal',
         'Print, attendant'),
        (3, 0x40, 'output_print_cardholder', 'bool', 'Normal',
         'Print, cardholder'),
        (3, 0x20, 'output_display_attendant', 'bool', 'Normal',
         'Display, attendant'),
        (3, 0x10, 'output_display_cardholder', 'bool', 'Normal',
         'Display, cardholder'),
        (3, 0x02, 'output_code_table_10', 'bool', 'Normal',
         'ISO/IEC 8859 Code Table 10'),
        (3, 0x01, 'output_code_table_9', 'bool', 'Normal',
         'ISO/IEC 8859 Code Table 9'),
        (4, 0x80, 'output_code_table_8', 'bool', 'Normal',
         'ISO/IEC 8859 Code Table 8'),
        (4, 0x40, 'output_code_table_7', 'bool', 'Normal',
         'ISO/IEC 8859 Code Table 7'),
        (4, 0x20, 'output_code_table_6', 'bool', 'Normal',
         'ISO/IEC 8859 Code Table 6'),
        (4, 0x10, 'output_code_table_5', 'bool', 'Normal',
         'ISO/IEC 8859 Code Table 5'),
        (4, 0x08, 'output_code_table_4', 'bool', 'Normal',
         'ISO/IEC 8859 Code Table 4'),
        (4, 0x04, 'output_code_table_3', 'bool', 'Normal',
         'ISO/IEC 8859 Code Table 3'),
        (4, 0x02, 'output_code_table_2', 'bool', 'Normal',
         'ISO/IEC 8859 Code Table 2'),
        (4, 0x01, 'output_code_table_1', 'bool', 'Normal',
         'ISO/IEC 8859 Code Table 1'),
    ]),
    'TerminalCapabilities': (3, [
        (0, 0x80, 'input_manual_key_entry', 'bool', 'Normal',
         'Manual key entry'),
        (0, 0x40, 'input_magnetic_stripe', 'bool', 'Normal',
         'Magnetic stripe (MSR)'),
        (0, 0x20, 'input_icc', 'bool', 'Normal',
         'IC with contacts (ICC)'),
        (1, 0x80, 'cvm_plaintext_pin_for_icc_verification', 'bool', 'Normal',
         'Plaintext PIN for ICC verification'),
        (1, 0x40, 'cvm_enciphered_pin_for_online_verification', 'bool', 'Normal',
         'Enciphered PIN for online verification'),
        (1, 0x20, 'cvm_signature', 'bool', 'Normal',
         'Signature (paper)'),
        (1, 0x10, 'cvm_enciphered_pin_for_offline_verification', 'bool', 'Normal',
         'Enciphered PIN for offline verification'),
        (1, 0x08, 'cvm_no_cvm_required', 'bool', 'Normal',
         'No CVM Required'),
        (2, 0x80, 'security_sda', 'bool', 'Normal',
         'SDA (Static Data Authentication)'),
        (2, 0x40, 'security_dda', 'bool', 'Normal',
         'DDA (Dynamic Data Authentication)'),
        (2, 0x20, 'security_card_capture', 'bool', 'Normal',
         'Card capture (ATM retaining the card)'),
        (2, 0x08, 'security_cda', 'bool', 'Normal',
         'CDA (Combined Data Authentication)'),
    ]),
    'CardholderVerificationRule': (2, [
        (0, 0x40, 'continue_if_unsuccessful', 'bool', 'Normal',
         'Apply succeeding CV Rule if this CVM is unsuccessful'),
        (0, 0x3F, 'method', 'OptionalCvMethod', 'Normal',
         'Method: {}'),
        (1, 0xFF, 'condition', 'OptionalCvmCondition', 'Normal',
         'Condition: {}'),
    ]),
}

# enum -> (source type, error for anything else, [(variant, values or None for "everything else", text)])
ENUMS = {
    'FormatCode': ('u8', 'NonCcdCompliant', [
        ('A', [0x0A], 'Format A'),
    ]),
    'CryptogramVersion': ('u8', 'NonCcdCompliant', [
        ('TripleDes', [0x05], 'Triple DES (3DES)'),
        ('Aes', [0x06], 'AES'),
    ]),
    'GenAc1ApplicationCryptogramType': ('u8', 'NonCcdCompliant', [
        ('Aac', [0x00], 'AAC (Application Authentication Cryptogram)'),
        ('Tc', [0x01], 'TC (Transaction Certificate)'),
        ('Arqc', [0x02], 'ARQC (Authorization Request Cryptogram)'),
        ('Rfu', [0x03], 'RFU (Reserved For Use)'),
    ]),
    'GenAc2ApplicationCryptogramType': ('u8', 'NonCcdCompliant', [
        ('Aac', [0x00], 'AAC (Application Authentication Cryptogram)'),
        ('Tc', [0x01], 'TC (Transaction Certificate)'),
        ('SecondGenAcNotRequested', [0x02], 'Second GENERATE AC not requested'),
        ('Rfu', [0x03], 'RFU (Reserved For Use)'),
    ]),
    'CvMethod': ('u8', 'NonCompliant', [
        ('FailCvmProcessing', [0x00], 'Fail CVM processing'),
        ('PlaintextPin', [0x01], 'Plaintext PIN verification performed by ICC'),
        ('EncipheredPinOnline', [0x02], 'Enciphered PIN verified online'),
        ('PlaintextPinWithSignature', [0x03], 'Plaintext PIN verification performed by ICC and signature (paper)'),
        ('EncipheredPin', [0x04], 'Enciphered PIN verification performed by ICC'),
        ('EncipheredPinWithSignature', [0x05], 'Enciphered PIN verification performed by ICC and signature (paper)'),
        ('Signature', [0x1E], 'Signature (paper)'),
        ('NoCvmRequired', [0x1F], 'No CVM required'),
        ('NoCvmPerformed', [0x3F], 'No CVM performed'),
    ]),
    'CvmCondition': ('u8', 'NonCompliant', [
        ('Always', [0x00], 'Always'),
        ('UnattendedCash', [0x01], 'If unattended cash'),
        ('NotUnattendedNotManualNotCashback', [0x02], 'If not unattended cash and not manual cash and not purchase with cashback'),
        ('TerminalSupported', [0x03], 'If terminal supports the CVM'),
        ('Manual', [0x04], 'If manual cash'),
        ('Cashback', [0x05], 'If purchase with cashback'),
        ('InApplicationCurrencyUnderX', [0x06], 'If transaction is in the application currency and is under X value'),
        ('InApplicationCurrencyOverX', [0x07], 'If transaction is in the application currency and is over X value'),
        ('InApplicationCurrencyUnderY', [0x08], 'If transaction is in the application currency and is under Y value'),
        ('InApplicationCurrencyOverY', [0x09], 'If transaction is in the application currency and is over Y value'),
    ]),
    'CvmResult': ('u8', 'NonCompliant', [
        ('Unknown', [0x00], 'Unknown'),
        ('Failed', [0x01], 'Failed'),
        ('Successful', [0x02], 'Successful'),
    ]),
    'TransactionType': ('u8', 'Unrecognised', [
        ('Purchase', [0x00], 'Purchase'),
        ('CashAdvance', [0x01], 'Cash Advance'),
        ('Void', [0x02], 'Void'),
        ('CashbackPurchase', [0x09], 'Purchase With Cashback'),
        ('Refund', [0x20], 'Refund'),
        ('BalanceInquiry', [0x31], 'Balance Inquiry'),
        ('MiniStatement', [0x38], 'Mini Statement'),
        ('FundTransfer', [0x40], 'Fund Transfer'),
    ]),
    'TerminalType': ('u8', 'Unrecognised', [
        ('AttendedOnlineOnlyFinancialInstitution', [0x11], 'Attended, Online-Only, Controlled by a Financial Institution'),
        ('AttendedOfflineWithOnlineCapabilitiesFinancialInstitution', [0x12], 'Attended, Offline With Online Capabilities, Controlled by a Financial Institution'),
        ('AttendedOfflineOnlyFinancialInstitution', [0x13], 'Attended, Offline-Only, Controlled by a Financial Institution'),
        ('UnattendedOnlineOnlyFinancialInstitution', [0x14], 'Unattended, Online-Only, Controlled by a Financial Institution (ATM if it supports Cash Disbursement)'),
        ('UnattendedOfflineWithOnlineCapabilitiesFinancialInstitution', [0x15], 'Unattended, Offline With Online Capabilities, Controlled by a Financial Institution (ATM if it supports Cash Disbursement)'),
        ('UnattendedOfflineOnlyFinancialInstitution', [0x16], 'Unattended, Offline-Only, Controlled by a Financial Institution (ATM if it supports Cash Disbursement)'),
        ('AttendedOnlineOnlyMerchant', [0x21], 'Attended, Online-Only, Controlled by a Merchant'),
        ('AttendedOfflineWithOnlineCapabilitiesMerchant', [0x22], 'Attended, Offline With Online Capabilities, Controlled by a Merchant'),
        ('AttendedOfflineOnlyMerchant', [0x23], 'Attended, Offline-Only, Controlled by a Merchant'),
        ('UnattendedOnlineOnlyMerchant', [0x24], 'Unattended, Online-Only, Controlled by a Merchant'),
        ('UnattendedOfflineWithOnlineCapabilitiesMerchant', [0x25], 'Unattended, Offline With Online Capabilities, Controlled by a Merchant'),
        ('UnattendedOfflineOnlyMerchant', [0x26], 'Unattended, Offline-Only, Controlled by a Merchant'),
        ('UnattendedOnlineOnlyCardholder', [0x34], 'Unattended, Online-Only, Controlled by the Cardholder (self-attended, home PC, etc.)'),
        ('UnattendedOfflineWithOnlineCapabilitiesCardholder', [0x35], 'Unattended, Offline With Online Capabilities, Controlled by the Cardholder (self-attended, home PC, etc.)'),
        ('UnattendedOfflineOnlyCardholder', [0x36], 'Unattended, Offline-Only, Controlled by the Cardholder (self-attended, home PC, etc.)'),
    ]),
    'PosEntryMode': ('u8', 'Unrecognised', [
        ('Unknown', [0x00], 'Unknown'),
        ('Manual', [0x01], 'Manual (keyed entry)'),
        ('MagneticStripe', [0x02], 'Magnetic Stripe Reader (MSR)'),
        ('Barcode', [0x03], 'Barcode'),
        ('Ocr', [0x04], 'Optical Character Recognition (OCR)'),
        ('ContactIcc', [0x05], 'Integrated Circuit Chip (ICC) - Data Reliable (contact/insert transaction) (CVV can be checked)'),
        ('Track1', [0x06], 'Magnetic Stripe Track 1'),
        ('ContactlessIcc', [0x07, 0x83], 'Contactless Chip (contactless/tap transaction)'),
        ('ContactlessIccMappingApplied', [0x08, 0x92], 'Contactless Chip (contactless/tap transaction) - Contactless Mapping Service Applied'),
        ('EcommerceIncludingRemoteChip', [0x09], 'E-Commerce - Including Remote Chip'),
        ('CredentialsOnFile', [0x10], 'Merchant Has Cardholder Credentials On File (token, recurring payment, etc.)'),
        ('Fallback', [0x80], 'ICC Could Not Process - Fallback to MSR'),
        ('EcommerceIncludingChip', [0x81], 'E-Commerce - Including Chip'),
        ('ViaServer', [0x82], 'Via a Server (issuer, acquirer, third-party vendor)'),
        ('MagneticStripeFull', [0x90], 'Magnetic Stripe Reader (MSR) - Full Track Data - Data Reliable (CVV can be checked)'),
        ('ContactlessMagneticStripe', [0x91], 'Contactless Magnetic Stripe Data (MSD)'),
        ('ContactIccUnreliable', [0x95], 'Integrated Circuit Chip (ICC) - Data Unreliable (contact/insert transaction) (CVV cannot be checked)'),
    ]),
    'AuthorisationResponseCode': ('&str', 'Unrecognised', [
        ('Approval', ['00'], 'Approval'),
        ('Call', ['01'], 'Call'),
        ('CallSpecial', ['02'], 'Call - Special Conditions'),
        ('TerminalIdError', ['03'], 'Terminal ID Error'),
        ('HoldCall', ['04'], 'Hold Card - Call'),
        ('Decline', ['05'], 'Decline - Do Not Honour'),
        ('Error', ['06'], 'Error'),
        ('HoldCallSpecial', ['07'], 'Hold Card - Call - Special Conditions'),
        ('HonourWithId', ['08'], 'Honour With Identification'),
        ('NoOriginalTransaction', ['09'], 'No Original Transaction'),
        ('PartialApproval', ['10'], 'Partial Approval'),
        ('ApprovalVip', ['11'], 'Approved (VIP)'),
        ('InvalidTransaction', ['12'], 'Invalid Transaction'),
        ('InvalidAmount', ['13'], 'Invalid Amount'),
        ('InvalidCardNumber', ['14'], 'Invalid Card Number'),
        ('NoSuchIssuer', ['15'], 'No Such Issuer'),
        ('ApprovedUpdateTrack3', ['16'], 'Approved - Update Track 3'),
        ('CustomerCancellation', ['17'], 'Customer Cancellation'),
        ('CustomerDispute', ['18'], 'Customer Dispute'),
        ('RetryTransaction', ['19'], 'Retry Transaction'),
        ('InvalidResponse', ['20'], 'Invalid Response'),
        ('NoActionTaken', ['21'], 'No Action Taken'),
        ('SuspectedMalfunction', ['22'], 'Suspected Malfunction'),
        ('InvalidMinimumAmount', ['23'], 'Invalid Minimum Amount'),
        ('FileUpdateNotSupported', ['24'], 'File Update Not Supported'),
        ('InvalidIccData', ['25'], 'Invalid ICC Data'),
        ('DuplicateFileUpdateRecord', ['26'], 'Duplicate File Update Record'),
        ('FileUpdateFieldEditError', ['27'], 'File Update Field Edit Error'),
        ('FileUpdateFileLockedOut', ['28'], 'File Update File Locked Out'),
        ('FileUpdateNotSuccessful', ['29'], 'File Update Not Successful'),
        ('FormatError', ['30'], 'Format Error'),
        ('BankNotSupportedBySwitch', ['31'], 'Bank Not Supported By Switch'),
        ('CompletedPartially', ['32'], 'Completed Partially'),
        ('ExpiredCard', ['33', '54'], 'Expired Card'),
        ('SuspectedFraud', ['34', '59'], 'Suspected Fraud'),
        ('CardAcceptorContactAcquirer', ['35', '60'], 'Card Acceptor, Contact Acquirer'),
        ('RestrictedCard', ['36', '62'], 'Restricted Card'),
        ('CardAcceptorCallAcquirerSecurity', ['37', '66'], 'Card Acceptor, Call Acquirer Security'),
        ('AllowablePinRetriesExceeded', ['38', '75'], 'Allowable PIN Retries Exceeded'),
        ('NoCreditAccount', ['39'], 'No Credit Account'),
        ('RequestedFunctionNotSupported', ['40'], 'Requested Function Not Supported'),
        ('LostCard', ['41'], 'Lost Card'),
        ('NoUniversalAccount', ['42'], 'No Universal Account'),
        ('StolenCard', ['43'], 'Stolen Card'),
        ('NoInvestmentAccount', ['44'], 'No Investment Account'),
        ('InsufficientFunds', ['51'], 'Insufficient Funds'),
        ('NoChequingAccount', ['52'], 'No Chequing Account'),
        ('NoSavingsAccount', ['53'], 'No Savings Account'),
        ('IncorrectPin', ['55'], 'Incorrect PIN'),
        ('NoCardRecord', ['56'], 'No Card Record'),
        ('TransactionNotAllowedCardholder', ['57'], 'Transaction Not Allowed For Cardholder'),
        ('TransactionNotAllowedTerminal', ['58'], 'Transaction Not Allowed For Terminal'),
        ('DebitCashbackWithdrawalLimitDecline', ['61'], 'Debit Cashback Withdrawal Limit Decline'),
        ('SecurityViolation', ['63'], 'Security Violation'),
        ('OriginalAmountIncorrect', ['64'], 'Original Amount Incorrect'),
        ('DeclineInsertCard', ['65'], 'Decline - Insert Card (often due to too many contactless transactions)'),
        ('HoldCallAtm', ['67'], 'ATM Hard Card Capture'),
        ('ResponseReceivedTooLate', ['68'], 'Response Received Too Late'),
        ('IssuerTimeout', ['91'], 'Issuer Timeout'),
        ('IssuerRoutingProblem', ['92'], 'Issuer Routing Problem'),
        ('TransactionNotCompletedLawViolation', ['93'], 'Transaction Not Completed - Law Violation'),
        ('DuplicateTransmission', ['94'], 'Duplicate Transmission'),
        ('ReconciliationError', ['95'], 'Reconciliation Error'),
        ('SystemMalfunction', ['96'], 'System Malfunction'),
    ]),
    'Interchange': ('u8', None, [
        ('International', [0x01, 0x02], 'International'),
        ('National', [0x05, 0x06], 'National'),
        ('Private', [0x07], 'Private'),
        ('Test', [0x09], 'Test'),
        ('Rfu', None, 'RFU'),
    ]),
    'Technology': ('u8', None, [
        ('IntegratedCircuitCard', [0x02, 0x06], 'Integrated circuit card (ICC)'),
        ('MagneticStripeOnly', None, 'Magnetic stripe only (MSR)'),
    ]),
    'AuthorisationProcessing': ('u8', None, [
        ('Normal', [0x00], 'Normal'),
        ('ByIssuer', [0x02], 'By issuer only (no offline authorisation)'),
        ('ByIssuerUnlessExplicitAgreement', [0x04], 'By issuer only unless an explicit bilateral agreement applies (no offline authorisation)'),
        ('Rfu', None, 'RFU'),
    ]),
    'AllowedServices': ('u8', None, [
        ('NoRestrictions', [0x00, 0x01, 0x06], 'No restrictions'),
        ('GoodsAndServicesOnly', [0x02, 0x05, 0x07], 'Goods and services only'),
        ('AtmOnly', [0x03], 'ATM only'),
        ('CashOnly', [0x04], 'Cash only'),
        ('Rfu', None, 'RFU'),
    ]),
    'PinRequirements': ('u8', None, [
        ('PinRequired', [0x00, 0x03, 0x05], 'PIN required'),
        ('PromptIfPinpadPresent', [0x06, 0x07], 'Prompt for PIN if PIN pad is present'),
        ('None', None, 'None'),
    ]),
    'TagClass': ('u8', 'NonCompliant', [
        ('Universal', [0x00], 'Universal'),
        ('Application', [0x01], 'Application'),
        ('ContextSpecific', [0x02], 'Context-Specific'),
        ('Private', [0x03], 'Private'),
    ]),
}

# tag (hex) -> name
TAGS = {
    '42': 'Issuer Identification Number (IIN)',
    '4F': 'Application Dedicated File (ADF) Name',
    '50': 'Application Label',
    '57': 'Track 2 Equivalent Data',
    '5A': 'Application Primary Account Number (PAN)',
    '5F20': 'Cardholder Name',
    '5F24': 'Application Expiration Date',
    '5F25': 'Application Effective Date',
    '5F28': 'Issuer Country Code',
    '5F2A': 'Transaction Currency Code',
    '5F2D': 'Language Preference',
    '5F30': 'Service Code',
    '5F34': 'Application Primary Account Number (PAN) Sequence Number',
    '5F36': 'Transaction Currency Exponent',
    '5F50': 'Issuer URL',
    '5F53': 'International Bank Account Number (IBAN)',
    '5F54': 'Bank Identifier Code (BIC)',
    '5F55': 'Issuer Country Code (alpha2 format)',
    '5F56': 'Issuer Country Code (alpha3 format)',
    '5F57': 'Account Type',
    '61': 'Application Template',
    '6F': 'File Control Information (FCI) Template',
    '70': 'READ RECORD Response Message Template',
    '71': 'Issuer Script Template 1',
    '72': 'Issuer Script Template 2',
    '73': 'Directory Discretionary Template',
    '77': 'Response Message Template Format 2',
    '80': 'Response Message Template Format 1',
    '81': 'Amount, Authorised (Binary)',
    '82': 'Application Interchange Profile',
    '83': 'Command Template',
    '84': 'Dedicated File (DF) Name',
    '86': 'Issuer Script Command',
    '87': 'Application Priority Indicator',
    '88': 'Short File Identifier (SFI)',
    '89': 'Authorisation Code',
    '8A': 'Authorisation Response Code',
    '8C': 'Card Risk Management Data Object List 1 (CDOL1)',
    '8D': 'Card Risk Management Data Object List 2 (CDOL2)',
    '8E': 'CVM List',
    '8F': 'Certification Authority Public Key Index (ICC)',
    '90': 'Issuer Public Key Certificate',
    '91': 'Issuer Authentication Data',
    '92': 'Issuer Public Key Remainder',
    '93': 'Signed Static Application Data',
    '94': 'Application File Locator (AFL)',
    '95': 'Terminal Verification Results (TVR)',
    '97': 'Transaction Certificate Data Object List (TDOL)',
    '98': 'Transaction Certificate (TC) Hash Value',
    '99': 'Transaction PIN Data',
    '9A': 'Transaction Date',
    '9B': 'Transaction Status Information (TSI)',
    '9C': 'Transaction Type',
    '9D': 'Directory Definition File (DDF) Name',
    '9F01': 'Acquirer Identifier',
    '9F02': 'Amount, Authorised (Numeric)',
    '9F03': 'Amount, Other (Numeric)',
    '9F04': 'Amount, Other (Binary)',
    '9F05': 'Application Discretionary Data',
    '9F06': 'Application Identifier (AID)',
    '9F07': 'Application Usage Control',
    '9F08': 'Application Version Number (ICC)',
    '9F09': 'Application Version Number (Terminal)',
    '9F0B': 'Cardholder Name Extended',
    '9F0D': 'Issuer Action Code - Default',
    '9F0E': 'Issuer Action Code - Denial',
    '9F0F': 'Issuer Action Code - Online',
    '9F10': 'Issuer Application Data (CCD-Compliant)',
    '9F11': 'Issuer Code Table Index',
    '9F12': 'Application Preferred Name',
    '9F13': 'Last Online Application Transaction Counter (ATC) Register',
    '9F14': 'Lower Consecutive Offline Limit',
    '9F15': 'Merchant Category Code',
    '9F16': 'Merchant Identifier',
    '9F17': 'PIN Try Counter',
    '9F18': 'Issuer Script Identifier',
    '9F1A': 'Terminal Country Code',
    '9F1B': 'Terminal Floor Limit',
    '9F1C': 'Terminal Identification',
    '9F1D': 'Terminal Risk Management Data',
    '9F1E': 'Interface Device (IFD/Terminal) Serial Number',
    '9F1F': 'Track 1 Discretionary Data',
    '9F20': 'Track 2 Discretionary Data',
    '9F21': 'Transaction Time',
    '9F22': 'Certification Authority Public Key Index (Terminal)',
    '9F23': 'Upper Consecutive Offline Limit',
    '9F26': 'Application Cryptogram',
    '9F27': 'Cryptogram Information Data (CID)',
    '9F2D': 'ICC PIN Encipherment Public Key Certificate',
    '9F2E': 'ICC PIN Encipherment Public Key Exponent',
    '9F2F': 'ICC PIN Encipherment Public Key Remainder',
    '9F32': 'Issuer Public Key Exponent',
    '9F33': 'Terminal Capabilities',
    '9F34': 'CVM Results',
    '9F35': 'Terminal Type',
    '9F36': 'Application Transaction Counter (ATC)',
    '9F37': 'Unpredictable Number',
    '9F38': 'Processing Options Data Object List (PDOL)',
    '9F39': 'POS Entry Mode',
    '9F3A': 'Amount, Reference Currency (Binary)',
    '9F3B': 'Application Reference Currency',
    '9F3C': 'Transaction Reference Currency Code',
    '9F3D': 'Transaction Reference Currency Exponent',
    '9F40': 'Additional Terminal Capabilities',
    '9F41': 'Transaction Sequence Counter',
    '9F42': 'Application Currency Code',
    '9F43': 'Application Reference Currency Exponent',
    '9F44': 'Application Currency Exponent',
    '9F45': 'Data Authentication Code',
    '9F46': 'ICC Public Key Certificate',
    '9F47': 'ICC Public Key Exponent',
    '9F48': 'ICC Public Key Remainder',
    '9F49': 'Dynamic Data Authentication Data Object List (DDOL)',
    '9F4A': 'Static Data Authentication Tag List',
    '9F4B': 'Signed Dynamic Application Data',
    '9F4C': 'ICC Dynamic Number',
    '9F4D': 'Log Entry',
    '9F4E': 'Merchant Name and Location',
    '9F4F': 'Log Format',
    'A5': 'File Control Information (FCI) Proprietary Template',
    'BF0C': 'File Control Information (FCI) Issuer Discretionary Data',
}
