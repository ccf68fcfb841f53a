// generated by tools/mkstrtables.py and reviewed
struct TagRow { unsigned tag; int format; const char* kind; const char* name; const char* desc; };
static const TagRow TAGS[] = {
	{0x42, 5, "n6", "Issuer Identification Number (IIN)", "The number that identifies the major industry and the card issuer and that forms the first part of the Primary Account Number (PAN)"},
	{0x4F, 3, "aid", "Application Dedicated File (ADF) Name", "Identifies the application as described in ISO/IEC 7816-4"},
	{0x50, 2, "sp16", "Application Label", "Mnemonic associated with the AID according to ISO/IEC 7816-4"},
	{0x56, 2, "ans76", "Track 1 Data", "Contains the data objects of the track 1 according to ISO/IEC 7813 Structure B, excluding start sentinel, end sentinel and Longitudinal Redundancy Check (LRC)"},
	{0x57, 3, "track2", "Track 2 Equivalent Data", "Contains the data elements of track 2 according to ISO/IEC 7813, excluding start sentinel, end sentinel, and Longitudinal Redundancy Check (LRC)"},
	{0x5A, 4, "cn19", "Application Primary Account Number (PAN)", "Valid cardholder account number"},
	{0x5F20, 2, "ans26", "Cardholder Name", "Indicates cardholder name according to ISO 7813"},
	{0x5F24, 5, "date", "Application Expiration Date", "Date after which application expires"},
	{0x5F25, 5, "date", "Application Effective Date", "Date from which the application may be used"},
	{0x5F28, 5, "country", "Issuer Country Code", "Indicates the country of the issuer according to ISO 3166"},
	{0x5F2A, 5, "currency", "Transaction Currency Code", "Indicates the currency code of the transaction according to ISO 4217"},
	{0x5F2D, 1, "languages", "Language Preference", "1-4 languages stored in order of preference, each represented by 2 alphabetical characters according to ISO 639"},
	{0x5F30, 5, "n3", "Service Code", "Service code as defined in ISO/IEC 7813 for track 1 and track 2"},
	{0x5F34, 5, "", "Application Primary Account Number (PAN) Sequence Number", "Identifies and differentiates cards with the same PAN"},
	{0x5F36, 5, "", "Transaction Currency Exponent", "Indicates the implied position of the decimal point from the right of the transaction amount represented according to ISO 4217"},
	{0x5F50, 2, "ans0", "Issuer URL", "The URL provides the location of the issuer's Library Server on the Internet"},
	{0x5F53, 6, "an34", "International Bank Account Number (IBAN)", "Uniquely identifies the account of a customer at a financial institution as defined in ISO 13616."},
	{0x5F54, 6, "an11", "Bank Identifier Code (BIC)", "Uniquely identifies a bank as defined in ISO 9362."},
	{0x5F55, 0, "alpha2", "Issuer Country Code (alpha2 format)", "Indicates the country of the issuer as defined in ISO 3166 (using a 2 character alphabetic code)"},
	{0x5F56, 0, "alpha3", "Issuer Country Code (alpha3 format)", "Indicates the country of the issuer as defined in ISO 3166 (using a 3 character alphabetic code)"},
	{0x5F57, 5, "account", "Account Type", "Indicates the type of account selected on the terminal, coded as specified in Annex G"},
	{0x61, 3, "", "Application Template", "Contains one or more data objects relevant to an application directory entry according to ISO/IEC 7816-4"},
	{0x6F, 6, "", "File Control Information (FCI) Template", "Identifies the FCI template according to ISO/IEC 7816-4"},
	{0x70, 6, "", "EMV Data Template", "Contains EMV data"},
	{0x71, 6, "", "Issuer Script Template 1", "Contains proprietary issuer data for transmission to the ICC before the second GENERATE AC command"},
	{0x72, 6, "", "Issuer Script Template 2", "Contains proprietary issuer data for transmission to the ICC after the second GENERATE AC command"},
	{0x73, 6, "", "Directory Discretionary Template", "Issuer discretionary part of the directory according to ISO/IEC 7816-4"},
	{0x77, 6, "", "Response Message Template Format 2", "Contains the data objects (with tags and lengths) returned by the ICC in response to a command"},
	{0x80, 6, "", "Response Message Template Format 1", "Contains the data objects (without tags and lengths) returned by the ICC in response to a command"},
	{0x81, 3, "amount", "Amount, Authorised (Binary)", "Authorised amount of the transaction (excluding adjustments)"},
	{0x82, 3, "aip", "Application Interchange Profile (AIP)", "Indicates the capabilities of the card to support specific functions in the application"},
	{0x83, 6, "", "Command Template", "Identifies the data field of a command message"},
	{0x84, 3, "dfname", "Dedicated File (DF) Name", "Identifies the name of the Dedicated File (DF) as described in ISO/IEC 7816-4"},
	{0x86, 6, "capdu", "Issuer Script Command", "Contains a command for transmission to the ICC"},
	{0x87, 3, "", "Application Priority Indicator", "Indicates the priority of a given application or group of applications in a directory"},
	{0x88, 3, "", "Short File Identifier (SFI)", "Identifies the Application Elementary File (AEF) referenced in commands related to a given Application Definition File or Directory Definition File (DDF). It is a binary data object having a value in the range 1 - 30 and with the three high order bits set to zero."},
	{0x89, 2, "ans6", "Authorisation Code", "Value generated by the authorisation authority (issuer) for an approved transaction"},
	{0x8A, 1, "arc", "Authorisation Response Code", "Code that defines the disposition of a message"},
	{0x8C, 7, "", "Card Risk Management Data Object List 1 (CDOL1)", "List of data objects (tag and length) to be passed to the ICC in the first GENERATE AC command"},
	{0x8D, 7, "", "Card Risk Management Data Object List 2 (CDOL2)", "List of data objects (tag and length) to be passed to the ICC in the second GENERATE AC command"},
	{0x8E, 3, "cvmlist", "Cardholder Verification Method (CVM) List", "Identifies a method of verification of the cardholder supported by the application"},
	{0x8F, 3, "", "Certification Authority Public Key (CAPK) Index", "Identifies the certification authority's public key in conjunction with the RID"},
	{0x90, 3, "", "Issuer Public Key Certificate", "Issuer public key certified by a certification authority"},
	{0x91, 3, "issuerauth", "Issuer Authentication Data", "Data sent to the ICC for online issuer authentication"},
	{0x92, 3, "", "Issuer Public Key Remainder", "Remaining digits of the Issuer Public Key Modulus"},
	{0x93, 3, "", "Signed Static Application Data", "Digital signature on critical application parameters for SDA"},
	{0x94, 6, "afl", "Application File Locator (AFL)", "Indicates the location (SFI, range of records) of the Application Elementary Files (AEFs) related to a given application"},
	{0x95, 3, "tvr", "Terminal Verification Results (TVR)", "Status of the different functions as seen from the terminal"},
	{0x9A, 5, "date", "Transaction Date", "Local date that the transaction was authorised"},
	{0x9B, 3, "tsi", "Transaction Status Information (TSI)", "Indicates the functions performed in a transaction"},
	{0x9C, 5, "txntype", "Transaction Type", "Indicates the type of financial transaction, represented by the first two digits of the ISO 8583:1987 Processing Code. The actual values to be used for the Transaction Type data element are defined by the relevant payment system."},
	{0x9D, 3, "", "Directory Definition File (DDF) Name", "Identifies the name of a Dedicated File (DF) associated with a directory"},
	{0x9F01, 5, "n11", "Acquirer Identifier", "Uniquely identifies the acquirer within each payment system"},
	{0x9F02, 5, "n12", "Amount, Authorised (Numeric)", "Authorised amount of the transaction (excluding adjustments)"},
	{0x9F03, 5, "n12", "Amount, Other (Numeric)", "Secondary amount associated with the transaction representing a cashback amount"},
	{0x9F04, 3, "amount", "Amount, Other (Binary)", "Secondary amount associated with the transaction representing a cashback amount"},
	{0x9F05, 3, "", "Application Discretionary Data", "Issuer or payment system specified data relating to the application"},
	{0x9F06, 3, "aid", "Application Identifier (AID) - terminal", "Identifies the application as described in ISO/IEC 7816-4"},
	{0x9F07, 3, "auc", "Application Usage Control", "Indicates issuer's specified restrictions on the geographic usage and services allowed for the application"},
	{0x9F08, 3, "", "Application Version Number", "Version number assigned by the payment system for the application"},
	{0x9F09, 3, "", "Application Version Number - terminal", "Version number assigned by the payment system for the application"},
	{0x9F0A, 3, "asrpd", "Application Selection Registered Proprietary Data (ASRPD)", "Proprietary data allowing for proprietary processing during application selection. Proprietary data is identified using Proprietary Data Identifiers that are managed by EMVCo and their usage by the Application Selection processing is according to their intended usage, as agreed by EMVCo during registration."},
	{0x9F0B, 2, "ans45", "Cardholder Name Extended", "Indicates the whole cardholder name when greater than 26 characters using the same coding convention as in ISO/IEC 7813"},
	{0x9F0C, 5, "n8", "Issuer Identification Number Extended (IINE)", "The number that identifies the major industry and the card issuer and that forms the first part of the Primary Account Number (PAN).\nWhile the first 6 digits of the IINE (tag '9F0C') and IIN (tag '42') are the same and there is no need to have both data objects on the card, cards may have both the IIN and IINE data objects present."},
	{0x9F0D, 3, "tvr", "Issuer Action Code (IAC) - Default", "Specifies the issuer's conditions that cause a transaction to be rejected if it might have been approved online, but the terminal is unable to process the transaction online"},
	{0x9F0E, 3, "tvr", "Issuer Action Code (IAC) - Denial", "Specifies the issuer's conditions that cause the denial of a transaction without attempt to go online"},
	{0x9F0F, 3, "tvr", "Issuer Action Code (IAC) - Online", "Specifies the issuer's conditions that cause a transaction to be transmitted online"},
	{0x9F10, 3, "iad", "Issuer Application Data", "Contains proprietary application data for transmission to the issuer in an online transaction."},
	{0x9F11, 5, "", "Issuer Code Table Index", "Indicates the code table according to ISO/IEC 8859 for displaying the Application Preferred Name"},
	{0x9F12, 2, "verbatim16", "Application Preferred Name", "Preferred mnemonic associated with the AID"},
	{0x9F13, 3, "", "Last Online Application Transaction Counter (ATC) Register", "Application Transaction Counter (ATC) value of the last transaction that went online"},
	{0x9F14, 3, "", "Lower Consecutive Offline Limit", "Issuer-specified preference for the maximum number of consecutive offline transactions for this ICC application allowed in a terminal with online capability"},
	{0x9F15, 5, "mcc", "Merchant Category Code (MCC)", "Classifies the type of business being done by the merchant, represented according to ISO 8583:1993 for Card Acceptor Business Code."},
	{0x9F16, 2, "ans15", "Merchant Identifier", "When concatenated with the Acquirer Identifier, uniquely identifies a given merchant"},
	{0x9F17, 3, "", "Personal Identification Number (PIN) Try Counter", "Number of PIN tries remaining"},
	{0x9F18, 3, "", "Issuer Script Identifier", "Identification of the Issuer Script"},
	{0x9F19, 5, "", "Token Requestor ID", "Uniquely identifies the pairing of the Token Requestor with the Token Domain, as defined in the EMV Payment Tokenisation Framework"},
	{0x9F1A, 5, "country", "Terminal Country Code", "Indicates the country of the terminal, represented according to ISO 3166"},
	{0x9F1B, 3, "amount", "Terminal Floor Limit", "Indicates the floor limit in the terminal in conjunction with the AID"},
	{0x9F1C, 1, "an8", "Terminal Identification", "Designates the unique location of a terminal at a merchant"},
	{0x9F1D, 3, "trmd", "Terminal Risk Management Data", "Application-specific value used by the contactless card or payment device for risk management purposes. All RFU bits must be set to zero."},
	{0x9F1E, 1, "an8", "Interface Device (IFD) Serial Number", "Unique and permanent serial number assigned to the IFD by the manufacturer"},
	{0x9F1F, 2, "ans0", "Track 1 Discretionary Data", "Discretionary part of track 1 according to ISO/IEC 7813"},
	{0x9F20, 4, "cn0", "Track 2 Discretionary Data", "Discretionary part of track 2 according to ISO/IEC 7813"},
	{0x9F21, 5, "time", "Transaction Time", "Local time that the transaction was authorised"},
	{0x9F22, 3, "", "Certification Authority Public Key (CAPK) Index", "Identifies the certification authority's public key in conjunction with the RID"},
	{0x9F23, 3, "", "Upper Consecutive Offline Limit", "Issuer-specified preference for the maximum number of consecutive offline transactions for this ICC application allowed in a terminal without online capability"},
	{0x9F24, 1, "an29", "Payment Account Reference (PAR)", "A non-financial reference assigned to each unique PAN and used to link a Payment Account represented by that PAN to affiliated Payment Tokens, as defined in the EMV Tokenisation Framework. The PAR may be assigned in advance of Payment Token issuance."},
	{0x9F25, 5, "n4", "Last 4 Digits of PAN", "The last four digits of the PAN, as defined in the EMV Payment Tokenisation Framework"},
	{0x9F26, 3, "", "Application Cryptogram", "Cryptogram returned by the ICC in response of the GENERATE AC command"},
	{0x9F27, 3, "cid", "Cryptogram Information Data", "Indicates the type of cryptogram and the actions to be performed by the terminal"},
	{0x9F32, 3, "", "Issuer Public Key Exponent", "Issuer public key exponent used for the verification of the Signed Static Application Data and the ICC Public Key Certificate"},
	{0x9F33, 3, "term_caps", "Terminal Capabilities", "Indicates the card data input, CVM, and security capabilities of the terminal"},
	{0x9F34, 3, "cvmresults", "Cardholder Verification Method (CVM) Results", "Indicates the results of the last CVM performed"},
	{0x9F35, 5, "term_type", "Terminal Type", "Indicates the environment of the terminal, its communications capability, and its operational control"},
	{0x9F36, 3, "", "Application Transaction Counter (ATC)", "Counter maintained by the application in the ICC (incrementing the ATC is managed by the ICC)"},
	{0x9F37, 3, "", "Unpredictable Number", "Value to provide variability and uniqueness to the generation of a cryptogram"},
	{0x9F38, 7, "", "Processing Options Data Object List (PDOL)", "Contains a list of terminal resident data objects (tags and lengths) needed by the ICC in processing the GET PROCESSING OPTIONS command"},
	{0x9F39, 5, "posentry", "Point-of-Service (POS) Entry Mode", "Indicates the method by which the PAN was entered, according to the first two digits of the ISO 8583:1987 POS Entry Mode"},
	{0x9F3A, 3, "amount", "Amount, Reference Currency", "Authorised amount expressed in the reference currency"},
	{0x9F3B, 5, "refcurrencies", "Application Reference Currency", "1-4 currency codes used between the terminal and the ICC when the Transaction Currency Code is different from the Application Currency Code; each code is 3 digits according to ISO 4217"},
	{0x9F3C, 5, "currency", "Transaction Reference Currency", "Code defining the common currency used by the terminal in case the Transaction Currency Code is different from the Application Currency Code"},
	{0x9F3D, 5, "", "Transaction Reference Currency Exponent", "Indicates the implied position of the decimal point from the right of the transaction amount, with the Transaction Reference Currency Code represented according to ISO 4217"},
	{0x9F40, 3, "addl_term_caps", "Additional Terminal Capabilities", "Indicates the data input and output capabilities of the terminal"},
	{0x9F41, 5, "n8", "Transaction Sequence Counter", "Counter maintained by the terminal that is incremented by one for each transaction"},
	{0x9F42, 5, "currency", "Application Currency Code", "Indicates the currency in which the account is managed according to ISO 4217"},
	{0x9F43, 5, "", "Application Reference Currency Exponent", "Indicates the implied position of the decimal point from the right of the amount, for each of the 1-4 reference currencies represented according to ISO 4217"},
	{0x9F44, 5, "", "Application Currency Exponent", "Indicates the implied position of the decimal point from the right of the amount represented according to ISO 4217"},
	{0x9F45, 3, "", "Data Authentication Code", "An issuer assigned value that is retained by the terminal during the verification process of the Signed Static Application Data"},
	{0x9F46, 3, "", "Integrated Circuit Card (ICC) Public Key Certificate", "ICC Public Key certified by the issuer"},
	{0x9F47, 3, "", "Integrated Circuit Card (ICC) Public Key Exponent", "ICC Public Key Exponent used for the verification of the Signed Dynamic Application Data"},
	{0x9F48, 3, "", "Integrated Circuit Card (ICC) Public Key Remainder", "Remaining digits of the ICC Public Key Modulus"},
	{0x9F49, 7, "", "Dynamic Data Authentication Data Object List (DDOL)", "List of data objects (tag and length) to be passed to the ICC in the INTERNAL AUTHENTICATE command"},
	{0x9F4A, 8, "", "Static Data Authentication (SDA) Tag List", "List of tags of primitive data objects defined in this specification whose value fields are to be included in the Signed Static or Dynamic Application Data"},
	{0x9F4C, 3, "", "Integrated Circuit Card (ICC) Dynamic Number", "Time-variant number generated by the ICC, to be captured by the terminal"},
	{0x9F4D, 3, "", "Log Entry", "Provides the SFI of the Transaction Log file and its number of records"},
	{0x9F4E, 2, "ans0", "Merchant Name and Location", "Indicates the name and location of the merchant"},
	{0x9F6C, 3, "ctq", "Card Transaction Qualifiers (CTQ)", "Used to indicate to the device the card CVM requirements, issuer preferences, and card capabilities."},
	{0xA5, 6, "", "File Control Information (FCI) Proprietary Template", "Identifies the data object proprietary to this specification in the File Control Information (FCI) template according to ISO/IEC 7816-4"},
	{0xBF0C, 6, "", "File Control Information (FCI) Issuer Discretionary Data", "Issuer discretionary part of the File Control Information (FCI)"},
	{0x9F66, 3, "ttq", "Terminal Transaction Qualifiers (TTQ)", "Indicates the requirements for online and CVM processing as a result of Entry Point processing. The scope of this tag is limited to Entry Point. Kernels may use this tag for different purposes."},
	{0x9F6D, 3, "amex_caps", "Contactless Reader Capabilities", "A proprietary data element with bits 8, 7, and 4 only used to indicate a terminal's capability to support Kernel 4 mag-stripe or EMV contactless. This data element is OR'd with Terminal Type, Tag '9F35', resulting in a modified Tag '9F35', which is passed to the card when requested."},
	{0x9F6E, 3, "tpd", "Third Party Data", "The Third Party data object may be used to carry specific product information to be optionally used by the terminal in processing transactions."},
	{0x9F6E, 3, "ffi", "Form Factor Indicator (FFI)", "Indicates the form factor of the consumer payment device and thetype of contactless interface over which the transaction was conducted. This information is made available to the issuer host."},
	{0x9F6E, 3, "amex_enh", "Enhanced Contactless Reader Capabilities", "Proprietary Data Element for managing Contactless transactions and includes Contactless terminal capabilities (static) and contactless Mobile transaction (dynamic data) around CVM"},
};
static const struct { const char* code; const char* text; } ARC_DESC[] = {
	{"00", "Approved or completed successfully"},
	{"01", "Refer to card issuer"},
	{"02", "Refer to card issuer's special conditions"},
	{"03", "Invalid merchant"},
	{"04", "Pick-up"},
	{"05", "Do not honour"},
	{"06", "Error"},
	{"07", "Pick-up card, special condition"},
	{"08", "Honour with identification"},
	{"09", "Request in progress"},
	{"0A", "No reason to decline"},
	{"0B", "Approved but fees disputed"},
	{"0C", "Approved, unable to process online"},
	{"0D", "Approved, transaction processed offline"},
	{"0E", "Approved, transaction processed offline after referral"},
	{"10", "Approved for partial amount"},
	{"11", "Approved (VIP)"},
	{"12", "Invalid transaction"},
	{"13", "Invalid amount"},
	{"14", "Invalid card/cardholder number"},
	{"15", "No such issuer (invalid IIN)"},
	{"16", "Approved, update track 3"},
	{"17", "Customer cancellation"},
	{"18", "Customer dispute"},
	{"19", "Re-enter transaction"},
	{"1A", "Additional consumer authentication required"},
	{"1B", "Cashback not allowed"},
	{"1C", "Cashback amount exceeded"},
	{"1D", "Surcharge amount not permitted for card product"},
	{"1E", "Surcharge not permitted by selected network"},
	{"1F", "Exceeds pre-authorized amount"},
	{"1G", "Currency unacceptable to card issuer"},
	{"1H", "Authorization lifecycle unacceptable"},
	{"1I", "Authorization lifecycle has expired"},
	{"1J", "Message sequence number error"},
	{"1K", "Payment date invalid"},
	{"1L", "Stop payment order - Specific pre-authorized payment"},
	{"1M", "Stop payment order - All pre-authorized payments for merchant"},
	{"1N", "Stop payment order - Account"},
	{"1O", "Recurring data error"},
	{"1P", "Scheduled transactions exist"},
	{"1W", "Cheque already posted"},
	{"1X", "Declined, unable to process offline"},
	{"1Y", "Declined, transaction processed offline"},
	{"1Z", "Declined, transaction processed offline after referral"},
	{"20", "Invalid response"},
	{"21", "No action taken"},
	{"22", "Suspected malfunction"},
	{"23", "Unacceptable transaction fee"},
	{"24", "File update not supported by receiver"},
	{"25", "Unable to locate record on file"},
	{"26", "Duplicate file update record, old record replaced"},
	{"27", "File update field edit error"},
	{"28", "File update file locked out"},
	{"29", "File update not successful"},
	{"2A", "Duplicate, new record rejected"},
	{"2B", "Unknown file"},
	{"2C", "Invalid security code"},
	{"2D", "Database error"},
	{"2E", "Update not allowed"},
	{"2F", "Not authorized and fees disputed"},
	{"30", "Format error"},
	{"31", "Acquirer bank not supported"},
	{"32", "Completed partially"},
	{"33", "Expired card"},
	{"34", "Suspected fraud"},
	{"35", "Card acceptor contact acquirer"},
	{"36", "Restricted card"},
	{"37", "Card acceptor call acquirer security"},
	{"38", "Allowable PIN tries exceeded"},
	{"39", "No credit account"},
	{"3A", "Suspected counterfeit card, pick up card"},
	{"3B", "Daily withdrawal uses exceeded"},
	{"3C", "Daily withdrawal amount exceeded"},
	{"40", "Requested function not supported"},
	{"41", "Lost card, pick-up"},
	{"42", "No universal account"},
	{"43", "Stolen card, pick-up"},
	{"44", "No investment account"},
	{"45", "No account of type requested"},
	{"46", "Closed account, or restricted for closing"},
	{"47", "From account bad status"},
	{"48", "To account bad status"},
	{"49", "Bad debt"},
	{"4A", "Card not effective"},
	{"4B", "Closed savings account, or restricted for closing"},
	{"4C", "Closed credit account or restricted for closing"},
	{"4D", "Closed credit facility cheque account or restricted for closing"},
	{"4E", "Closed cheque account or restricted for closing"},
	{"51", "Not sufficient funds"},
	{"52", "No chequing account"},
	{"53", "No savings account"},
	{"54", "Expired card"},
	{"55", "Incorrect personal identification number"},
	{"56", "No card record"},
	{"57", "Transaction not permitted to cardholder"},
	{"58", "Transaction not permitted to terminal"},
	{"59", "Suspected fraud"},
	{"5A", "Suspected counterfeit card"},
	{"5B", "Transaction does not fulfill Anti-Money Laundering requirements"},
	{"5C", "Transaction not supported by the card issuer"},
	{"60", "Card acceptor contact acquirer"},
	{"61", "Exceeds withdrawal amount limit"},
	{"62", "Restricted card"},
	{"63", "Security violation"},
	{"64", "Original amount incorrect"},
	{"65", "Exceeds withdrawal frequency limit"},
	{"66", "Card acceptor call acquirer's security department"},
	{"67", "Hard capture (requires that card be picked up at ATM)"},
	{"68", "Response received too late"},
	{"6P", "Verification data failed"},
	{"6Q", "No communication keys available for use"},
	{"6R", "MAC key sync error"},
	{"6S", "MAC incorrect"},
	{"6T", "Security software/hardware error - try again"},
	{"6U", "Security software/hardware error - do not retry"},
	{"6V", "Encryption key sync error"},
	{"6W", "Key verification failed. Key check value does not match"},
	{"6X", "Key sync error"},
	{"6Y", "Missing required data to verify/process PIN"},
	{"6Z", "Invalid PIN block"},
	{"70", "PIN data required"},
	{"71", "New PIN invalid"},
	{"72", "PIN change required"},
	{"73", "PIN is not allowed for transaction"},
	{"74", "PIN length error"},
	{"75", "Allowable number of PIN tries exceeded"},
	{"8A", "Reconciled, in balance"},
	{"8B", "Amount not reconciled, totals provided"},
	{"8C", "Totals not available"},
	{"8D", "Not reconciled, totals provided"},
	{"8E", "Ineligible to receive financial position information"},
	{"8F", "Reconciliation cutover or checkpoint error"},
	{"8G", "Advice acknowledged, no financial liability accepted"},
	{"8H", "Advice acknowledged, financial liability accepted"},
	{"8I", "Message number out of sequence"},
	{"8W", "Perform Stand-In Processing (STIP)"},
	{"8X", "Currently unable to perform request; try later"},
	{"8Y", "Card issuer signed off"},
	{"8Z", "Card issuer timed out"},
	{"90", "Cutoff is in process (switch ending a day's business and starting the next. Transaction can be sent again in a few minutes)"},
	{"91", "Issuer or switch is unavailable or inoperative"},
	{"92", "Financial institution or intermediate network facility cannot be found for routing"},
	{"93", "Transaction cannot be completed. Violation of law"},
	{"94", "Duplicate transmission"},
	{"95", "Reconcile error"},
	{"96", "System malfunction"},
	{"9A", "Violation of business arrangement"},
	{"9B", "No matching original transaction"},
	{"9C", "Original transaction was declined"},
	{"9D", "Bank not found"},
	{"9E", "Bank not effective"},
	{"9F", "Information not on file"},
};
static const struct { const char* code; const char* text; } DEVICE_TYPE[] = {
	{"00", "Card"},
	{"01", "Mobile Phone or Smartphone with Mobile Network Operator (MNO) controlled removable secure element (SIM or UICC) personalized for use with a mobile phone or smartphone"},
	{"02", "Key Fob"},
	{"03", "Watch using a contactless chip or a fixed (non-removable) secure element not controlled by the MNO"},
	{"04", "Mobile Tag"},
	{"05", "Wristband"},
	{"06", "Mobile Phone Case or Sleeve"},
	{"07", "Mobile phone or smartphone with a fixed (non-removable) secure element controlled by the MNO, for example, code division multiple access (CDMA)"},
	{"08", "Removable secure element not controlled by the MNO, for example, memory card personalized for used with a mobile phone or smartphone"},
	{"09", "Mobile Phone or smartphone with a fixed (non-removable) secure element not controlled by the MNO"},
	{"10", "MNO controlled removable secure element (SIM or UICC) personalized for use with a tablet or e-book"},
	{"11", "Tablet or e-book with a fixed (non-removable) secure element controlled by the MNO"},
	{"12", "Removable secure element not controlled by the MNO, for example, memory card personalized for use with a tablet or e-book"},
	{"13", "Tablet or e-book with fixed (non-removable) secure element not controlled by the MNO"},
	{"14", "Mobile phone or smartphone with a payment application running in a host processor"},
	{"15", "Tablet or e-book with a payment application running in a host processor"},
	{"16", "Mobile phone or smartphone with a payment application running in the Trusted Execution Environment (TEE) of a host processor"},
	{"17", "Tablet or e-book with a payment application running in the TEE of a host processor"},
	{"18", "Watch with a payment application running in the TEE of a host processor"},
	{"19", "Watch with a payment application running in a host processor"},
	{"20", "Card"},
	{"21", "Phone (Mobile phone)"},
	{"22", "Tablet/e-reader (Tablet computer or e-reader)"},
	{"23", "Watch/Wristband (Watch or wristband, including a fitness band, smart strap, disposable band, watch add-on, and security/ID band)"},
	{"24", "Sticker"},
	{"25", "PC (PC or laptop)"},
	{"26", "Device Peripheral (Mobile phone case or sleeve)"},
	{"27", "Tag (Key fob or mobile tag)"},
	{"28", "Jewelry (Ring, bracelet, necklace, and cuff links)"},
	{"29", "Fashion Accessory (Handbag, bag charm, and glasses)"},
	{"30", "Garment (Dress)"},
	{"31", "Domestic Appliance (Refrigerator, washing machine)"},
	{"32", "Vehicle (Vehicle, including vehicle attached devices)"},
	{"33", "Media/Gaming Device (Media or gaming device, including a set top box, media player, and television)"},
};
