// generated by tools/mkbittables.py and reviewed; kind, mask, value, values, number kind, text
{ "term_type", "emv_term_type_get_string_list", { 0x22 }, {
 { 0, {
  { 'E', 0x30, 0x00, {}, '-', "Operational Control: Unknown" },
  { 'E', 0x30, 0x10, {}, '-', "Operational Control: Financial Institution" },
  { 'E', 0x30, 0x20, {}, '-', "Operational Control: Merchant" },
  { 'E', 0x30, 0x30, {}, '-', "Operational Control: Cardholder" },
  { 'E', 0x07, 0x01, {}, '-', "Environment: Attended, online only" },
  { 'E', 0x07, 0x02, {}, '-', "Environment: Attended, offline with online capability" },
  { 'E', 0x07, 0x03, {}, '-', "Environment: Attended, offline only" },
  { 'E', 0x07, 0x04, {}, '-', "Environment: Unattended, online only" },
  { 'E', 0x07, 0x05, {}, '-', "Environment: Unattended, offline with online capability" },
  { 'E', 0x07, 0x06, {}, '-', "Environment: Unattended, offline only" },
  { 'V', 0x07, 0, { 0, 7 }, '-', "Environment: Unknown" },
 } },
} },
{ "term_caps", "emv_term_caps_get_string_list", { 0x00, 0x00, 0x00 }, {
 { 0, {
  { 'E', 0xFF, 0x00, {}, '-', "Card Data Input Capability: None" },
  { 'E', 0x80, 0x80, {}, '-', "Card Data Input Capability: Manual key entry" },
  { 'E', 0x40, 0x40, {}, '-', "Card Data Input Capability: Magnetic stripe" },
  { 'E', 0x20, 0x20, {}, '-', "Card Data Input Capability: IC with contacts" },
  { 'X', 0x1F, 0x00, {}, '-', "Card Data Input Capability: RFU" },
 } },
 { 1, {
  { 'E', 0xFF, 0x00, {}, '-', "CVM Capability: None" },
  { 'E', 0x80, 0x80, {}, '-', "CVM Capability: Plaintext PIN for ICC verification" },
  { 'E', 0x40, 0x40, {}, '-', "CVM Capability: Enciphered PIN for online verification" },
  { 'E', 0x20, 0x20, {}, '-', "CVM Capability: Signature" },
  { 'E', 0x10, 0x10, {}, '-', "CVM Capability: Enciphered PIN for offline verification (RSA ODE)" },
  { 'E', 0x08, 0x08, {}, '-', "CVM Capability: No CVM required" },
  { 'E', 0x04, 0x04, {}, '-', "CVM Capability: Online Biometric" },
  { 'E', 0x02, 0x02, {}, '-', "CVM Capability: Offline Biometric" },
  { 'E', 0x01, 0x01, {}, '-', "CVM Capability: Enciphered PIN for offline verification (ECC ODE)" },
 } },
 { 2, {
  { 'E', 0xFF, 0x00, {}, '-', "Security Capability: None" },
  { 'E', 0x80, 0x80, {}, '-', "Security Capability: Static Data Authentication (SDA)" },
  { 'E', 0x40, 0x40, {}, '-', "Security Capability: Dynamic Data Authentication (DDA)" },
  { 'E', 0x20, 0x20, {}, '-', "Security Capability: Card capture" },
  { 'E', 0x08, 0x08, {}, '-', "Security Capability: Combined DDA/Application Cryptogram Generation (CDA)" },
  { 'E', 0x04, 0x04, {}, '-', "Security Capability: Extended Data Authentication (XDA)" },
  { 'X', 0x13, 0x00, {}, '-', "Security Capability: RFU" },
 } },
} },
{ "addl_term_caps", "emv_addl_term_caps_get_string_list", { 0x80, 0x00, 0x00, 0x00, 0x00 }, {
 { 0, {
  { 'E', 0x80, 0x80, {}, '-', "Transaction Type Capability: Cash" },
  { 'E', 0x40, 0x40, {}, '-', "Transaction Type Capability: Goods" },
  { 'E', 0x20, 0x20, {}, '-', "Transaction Type Capability: Services" },
  { 'E', 0x10, 0x10, {}, '-', "Transaction Type Capability: Cashback" },
  { 'E', 0x08, 0x08, {}, '-', "Transaction Type Capability: Inquiry" },
  { 'E', 0x04, 0x04, {}, '-', "Transaction Type Capability: Transfer" },
  { 'E', 0x02, 0x02, {}, '-', "Transaction Type Capability: Payment" },
  { 'E', 0x01, 0x01, {}, '-', "Transaction Type Capability: Administrative" },
 } },
 { 1, {
  { 'E', 0x80, 0x80, {}, '-', "Transaction Type Capability: Cash deposit" },
  { 'X', 0x7F, 0x00, {}, '-', "Transaction Type Capability: RFU" },
 } },
 { 2, {
  { 'E', 0xFF, 0x00, {}, '-', "Terminal Data Input Capability: None" },
  { 'E', 0x80, 0x80, {}, '-', "Terminal Data Input Capability: Numeric keys" },
  { 'E', 0x40, 0x40, {}, '-', "Terminal Data Input Capability: Alphabetic and special characters keys" },
  { 'E', 0x20, 0x20, {}, '-', "Terminal Data Input Capability: Command keys" },
  { 'E', 0x10, 0x10, {}, '-', "Terminal Data Input Capability: Function keys" },
  { 'X', 0x0F, 0x00, {}, '-', "Terminal Data Input Capability: RFU" },
 } },
 { 3, {
  { 'E', 0xF0, 0x00, {}, '-', "Terminal Data Output Capability: No print, electronic or display output" },
  { 'E', 0x80, 0x80, {}, '-', "Terminal Data Output Capability: Print or electronic, attendant" },
  { 'E', 0x40, 0x40, {}, '-', "Terminal Data Output Capability: Print or electronic, cardholder" },
  { 'E', 0x20, 0x20, {}, '-', "Terminal Data Output Capability: Display, attendant" },
  { 'E', 0x10, 0x10, {}, '-', "Terminal Data Output Capability: Display cardholder" },
  { 'E', 0x02, 0x02, {}, '-', "Terminal Data Output Capability: Code table 10" },
  { 'E', 0x01, 0x01, {}, '-', "Terminal Data Output Capability: Code table 9" },
  { 'X', 0x0C, 0x00, {}, '-', "Terminal Data Output Capability: RFU" },
 } },
 { 4, {
  { 'E', 0x80, 0x80, {}, '-', "Terminal Data Output Capability: Code table 8" },
  { 'E', 0x40, 0x40, {}, '-', "Terminal Data Output Capability: Code table 7" },
  { 'E', 0x20, 0x20, {}, '-', "Terminal Data Output Capability: Code table 6" },
  { 'E', 0x10, 0x10, {}, '-', "Terminal Data Output Capability: Code table 5" },
  { 'E', 0x08, 0x08, {}, '-', "Terminal Data Output Capability: Code table 4" },
  { 'E', 0x04, 0x04, {}, '-', "Terminal Data Output Capability: Code table 3" },
  { 'E', 0x02, 0x02, {}, '-', "Terminal Data Output Capability: Code table 2" },
  { 'E', 0x01, 0x01, {}, '-', "Terminal Data Output Capability: Code table 1" },
 } },
} },
{ "aip", "emv_aip_get_string_list", { 0x00, 0x00 }, {
 { 0, {
  { 'E', 0x80, 0x80, {}, '-', "Extended Data Authentication (XDA) is supported" },
  { 'E', 0x40, 0x40, {}, '-', "Static Data Authentication (SDA) is supported" },
  { 'E', 0x20, 0x20, {}, '-', "Dynamic Data Authentication (DDA) is supported" },
  { 'E', 0x10, 0x10, {}, '-', "Cardholder verification is supported" },
  { 'E', 0x08, 0x08, {}, '-', "Terminal risk management is to be performed" },
  { 'E', 0x04, 0x04, {}, '-', "Issuer authentication is supported" },
  { 'E', 0x02, 0x02, {}, '-', "On device cardholder verification is supported" },
  { 'E', 0x01, 0x01, {}, '-', "Combined DDA/Application Cryptogram Generation (CDA) is supported" },
 } },
 { 1, {
  { 'E', 0x80, 0x80, {}, '-', "Contactless EMV mode is supported" },
  { 'E', 0x40, 0x40, {}, '-', "Mobile phone" },
  { 'E', 0x20, 0x20, {}, '-', "Contactless transaction" },
  { 'X', 0x1E, 0x00, {}, '-', "RFU" },
  { 'E', 0x01, 0x01, {}, '-', "Relay Resistance Protocol (RRP) is supported" },
 } },
} },
{ "auc", "emv_app_usage_control_get_string_list", { 0x00, 0x00 }, {
 { 0, {
  { 'E', 0x80, 0x80, {}, '-', "Valid for domestic cash transactions" },
  { 'E', 0x40, 0x40, {}, '-', "Valid for international cash transactions" },
  { 'E', 0x20, 0x20, {}, '-', "Valid for domestic goods" },
  { 'E', 0x10, 0x10, {}, '-', "Valid for international goods" },
  { 'E', 0x08, 0x08, {}, '-', "Valid for domestic services" },
  { 'E', 0x04, 0x04, {}, '-', "Valid for international services" },
  { 'E', 0x02, 0x02, {}, '-', "Valid at ATMs" },
  { 'E', 0x01, 0x01, {}, '-', "Valid at terminals other than ATMs" },
 } },
 { 1, {
  { 'E', 0x80, 0x80, {}, '-', "Domestic cashback allowed" },
  { 'E', 0x40, 0x40, {}, '-', "International cashback allowed" },
  { 'X', 0x3F, 0x00, {}, '-', "RFU" },
 } },
} },
{ "tvr", "emv_tvr_get_string_list", { 0x00, 0x00, 0x00, 0x00, 0x00 }, {
 { 0, {
  { 'E', 0x80, 0x80, {}, '-', "Offline data authentication was not performed" },
  { 'E', 0x40, 0x40, {}, '-', "Static Data Authentication (SDA) failed" },
  { 'E', 0x20, 0x20, {}, '-', "Integrated circuit card (ICC) data missing" },
  { 'E', 0x10, 0x10, {}, '-', "Card appears on terminal exception file" },
  { 'E', 0x08, 0x08, {}, '-', "Dynamic Data Authentication (DDA) failed" },
  { 'E', 0x04, 0x04, {}, '-', "Combined DDA/Application Cryptogram Generation (CDA) failed" },
  { 'E', 0x02, 0x02, {}, '-', "Static Data Authentication (SDA) selected" },
  { 'E', 0x01, 0x01, {}, '-', "Extended Data Authentication (XDA) selected" },
 } },
 { 1, {
  { 'E', 0x80, 0x80, {}, '-', "ICC and terminal have different application versions" },
  { 'E', 0x40, 0x40, {}, '-', "Expired application" },
  { 'E', 0x20, 0x20, {}, '-', "Application not yet effective" },
  { 'E', 0x10, 0x10, {}, '-', "Requested service not allowed for card product" },
  { 'E', 0x08, 0x08, {}, '-', "New card" },
  { 'E', 0x04, 0x04, {}, '-', "RFU" },
  { 'E', 0x02, 0x02, {}, '-', "Biometric performed and successful" },
  { 'E', 0x01, 0x01, {}, '-', "Biometric template format not supported" },
 } },
 { 2, {
  { 'E', 0x80, 0x80, {}, '-', "Cardholder verification was not successful" },
  { 'E', 0x40, 0x40, {}, '-', "Unrecognised CVM" },
  { 'E', 0x20, 0x20, {}, '-', "PIN Try Limit exceeded" },
  { 'E', 0x10, 0x10, {}, '-', "PIN entry required and PIN pad not present or not working" },
  { 'E', 0x08, 0x08, {}, '-', "PIN entry required, PIN pad present, but PIN was not entered" },
  { 'E', 0x04, 0x04, {}, '-', "Online CVM captured" },
  { 'E', 0x02, 0x02, {}, '-', "Biometric required but Biometric capture device not working" },
  { 'E', 0x01, 0x01, {}, '-', "Biometric required, Biometric capture device present, but Biometric Subtype entry was bypassed" },
 } },
 { 3, {
  { 'E', 0x80, 0x80, {}, '-', "Transaction exceeds floor limit" },
  { 'E', 0x40, 0x40, {}, '-', "Lower consecutive offline limit exceeded" },
  { 'E', 0x20, 0x20, {}, '-', "Upper consecutive offline limit exceeded" },
  { 'E', 0x10, 0x10, {}, '-', "Transaction selected randomly for online processing" },
  { 'E', 0x08, 0x08, {}, '-', "Merchant forced transaction online" },
  { 'E', 0x04, 0x04, {}, '-', "Biometric Try Limit exceeded" },
  { 'E', 0x02, 0x02, {}, '-', "A selected Biometric Type not supported" },
  { 'E', 0x01, 0x01, {}, '-', "XDA signature verification failed" },
 } },
 { 4, {
  { 'E', 0x80, 0x80, {}, '-', "Default TDOL used" },
  { 'E', 0x40, 0x40, {}, '-', "Issuer authentication failed" },
  { 'E', 0x20, 0x20, {}, '-', "Script processing failed before final GENERATE AC" },
  { 'E', 0x10, 0x10, {}, '-', "Script processing failed after final GENERATE AC" },
  { 'E', 0x04, 0x04, {}, '-', "CA ECC key missing" },
  { 'E', 0x02, 0x02, {}, '-', "ECC key recovery failed" },
  { 'X', 0x09, 0x00, {}, '-', "Reserved for use by the EMV Contactless Specifications" },
 } },
} },
{ "tsi", "emv_tsi_get_string_list", { 0x00, 0x00 }, {
 { 0, {
  { 'E', 0x80, 0x80, {}, '-', "Offline data authentication was performed" },
  { 'E', 0x40, 0x40, {}, '-', "Cardholder verification was performed" },
  { 'E', 0x20, 0x20, {}, '-', "Card risk management was performed" },
  { 'E', 0x10, 0x10, {}, '-', "Issuer authentication was performed" },
  { 'E', 0x08, 0x08, {}, '-', "Terminal risk management was performed" },
  { 'E', 0x04, 0x04, {}, '-', "Script processing was performed" },
  { 'X', 0x03, 0x00, {}, '-', "RFU" },
 } },
 { 1, {
  { 'X', 0xFF, 0x00, {}, '-', "RFU" },
 } },
} },
{ "cid", "emv_cid_get_string_list", { 0x00 }, {
 { 0, {
  { 'E', 0xC0, 0x00, {}, '-', "Application Cryptogram (AC) type: Application Authentication Cryptogram (AAC)" },
  { 'E', 0xC0, 0x40, {}, '-', "Application Cryptogram (AC) type: Transaction Certificate (TC)" },
  { 'E', 0xC0, 0x80, {}, '-', "Application Cryptogram (AC) type: Authorisation Request Cryptogram (ARQC)" },
  { 'E', 0xC0, 0xC0, {}, '-', "Application Cryptogram (AC) type: RFU" },
  { 'E', 0x30, 0x10, {}, '-', "Payment System-specific cryptogram: 0x10" },
  { 'E', 0x30, 0x20, {}, '-', "Payment System-specific cryptogram: 0x20" },
  { 'E', 0x30, 0x30, {}, '-', "Payment System-specific cryptogram: 0x30" },
  { 'V', 0x0F, 0, { 1, 2, 3, 4, 5, 6, 7 }, '-', "No advice required" },
  { 'E', 0x08, 0x08, {}, '-', "Advice required" },
  { 'E', 0x07, 0x01, {}, '-', "Advice: Service not allowed" },
  { 'E', 0x07, 0x02, {}, '-', "Advice: PIN Try Limit exceeded" },
  { 'E', 0x07, 0x03, {}, '-', "Advice: Issuer authentication failed" },
  { 'E', 0x04, 0x04, {}, '-', "Advice: RFU" },
 } },
} },
{ "trmd", "emv_terminal_risk_management_data_get_string_list", { 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00 }, {
 { 0, {
  { 'E', 0x80, 0x80, {}, '-', "Restart supported" },
  { 'E', 0x40, 0x40, {}, '-', "Enciphered PIN verified online (Contactless)" },
  { 'E', 0x20, 0x20, {}, '-', "Signature (paper) (Contactless)" },
  { 'E', 0x10, 0x10, {}, '-', "Enciphered PIN verification performed by ICC (Contactless)" },
  { 'E', 0x08, 0x08, {}, '-', "No CVM required (Contactless)" },
  { 'E', 0x04, 0x04, {}, '-', "CDCVM (Contactless)" },
  { 'E', 0x02, 0x02, {}, '-', "Plaintext PIN verification performed by ICC (Contactless)" },
  { 'E', 0x01, 0x01, {}, '-', "Present and Hold supported" },
 } },
 { 1, {
  { 'E', 0x80, 0x80, {}, '-', "CVM Limit exceeded" },
  { 'E', 0x40, 0x40, {}, '-', "Enciphered PIN verified online (Contact)" },
  { 'E', 0x20, 0x20, {}, '-', "Signature (paper) (Contact)" },
  { 'E', 0x10, 0x10, {}, '-', "Enciphered PIN verification performed by ICC (Contact)" },
  { 'E', 0x08, 0x08, {}, '-', "No CVM required (Contact)" },
  { 'E', 0x04, 0x04, {}, '-', "CDCVM (Contact)" },
  { 'E', 0x02, 0x02, {}, '-', "Plaintext PIN verification performed by ICC (Contact)" },
  { 'E', 0x01, 0x01, {}, '-', "RFU" },
 } },
 { 2, {
  { 'E', 0x80, 0x80, {}, '-', "Mag-stripe mode contactless transactions not supported" },
  { 'E', 0x40, 0x40, {}, '-', "EMV mode contactless transactions not supported" },
  { 'E', 0x20, 0x20, {}, '-', "CDCVM without CDA supported" },
  { 'X', 0x1F, 0x00, {}, '-', "RFU" },
 } },
 { 3, {
  { 'E', 0x80, 0x80, {}, '-', "CDCVM bypass requested" },
  { 'E', 0x40, 0x40, {}, '-', "SCA exempt" },
  { 'X', 0x3F, 0x00, {}, '-', "RFU" },
 } },
 { 4, {
  { 'X', 0xFF, 0x00, {}, '-', "RFU" },
 } },
 { 5, {
  { 'X', 0xFF, 0x00, {}, '-', "RFU" },
 } },
 { 6, {
  { 'X', 0xFF, 0x00, {}, '-', "RFU" },
 } },
 { 7, {
  { 'X', 0xFF, 0x00, {}, '-', "RFU" },
 } },
} },
{ "ttq", "emv_ttq_get_string_list", { 0x00, 0x00, 0x00, 0x00 }, {
 { 0, {
  { 'E', 0x80, 0x00, {}, '-', "Mag-stripe mode not supported" },
  { 'E', 0x80, 0x80, {}, '-', "Mag-stripe mode supported" },
  { 'E', 0x40, 0x40, {}, '-', "RFU" },
  { 'E', 0x20, 0x00, {}, '-', "EMV mode not supported" },
  { 'E', 0x20, 0x20, {}, '-', "EMV mode supported" },
  { 'E', 0x10, 0x00, {}, '-', "EMV contact chip not supported" },
  { 'E', 0x10, 0x10, {}, '-', "EMV contact chip supported" },
  { 'E', 0x08, 0x00, {}, '-', "Online capable reader" },
  { 'E', 0x08, 0x08, {}, '-', "Offline-only reader" },
  { 'E', 0x04, 0x00, {}, '-', "Online PIN not supported" },
  { 'E', 0x04, 0x04, {}, '-', "Online PIN supported" },
  { 'E', 0x02, 0x00, {}, '-', "Signature not supported" },
  { 'E', 0x02, 0x02, {}, '-', "Signature supported" },
  { 'E', 0x01, 0x00, {}, '-', "Offline Data Authentication for Online Authorizations not supported" },
  { 'E', 0x01, 0x01, {}, '-', "Offline Data Authentication for Online Authorizations supported" },
 } },
 { 1, {
  { 'E', 0x80, 0x00, {}, '-', "Online cryptogram not required" },
  { 'E', 0x80, 0x80, {}, '-', "Online cryptogram required" },
  { 'E', 0x40, 0x00, {}, '-', "CVM not required" },
  { 'E', 0x40, 0x40, {}, '-', "CVM required" },
  { 'E', 0x20, 0x00, {}, '-', "(Contact Chip) Offline PIN not supported" },
  { 'E', 0x20, 0x20, {}, '-', "(Contact Chip) Offline PIN supported" },
  { 'X', 0x1F, 0x00, {}, '-', "RFU" },
 } },
 { 2, {
  { 'E', 0x80, 0x00, {}, '-', "Issuer Update Processing not supported" },
  { 'E', 0x80, 0x80, {}, '-', "Issuer Update Processing supported" },
  { 'E', 0x40, 0x00, {}, '-', "Consumer Device CVM not supported" },
  { 'E', 0x40, 0x40, {}, '-', "Consumer Device CVM supported" },
  { 'E', 0x08, 0x08, {}, '-', "Consumer Device CVM required" },
  { 'X', 0x37, 0x00, {}, '-', "RFU" },
 } },
 { 3, {
  { 'E', 0x80, 0x80, {}, '-', "fDDA v1.0 Supported" },
  { 'X', 0x7F, 0x00, {}, '-', "RFU" },
 } },
} },
{ "ctq", "emv_ctq_get_string_list", { 0x00, 0x00 }, {
 { 0, {
  { 'E', 0x80, 0x80, {}, '-', "Online PIN Required" },
  { 'E', 0x40, 0x40, {}, '-', "Signature Required" },
  { 'E', 0x20, 0x20, {}, '-', "Go Online if Offline Data Authentication Fails and Reader is online capable" },
  { 'E', 0x10, 0x10, {}, '-', "Switch Interface if Offline Data Authentication fails and Reader supports contact chip" },
  { 'E', 0x08, 0x08, {}, '-', "Go Online if Application Expired" },
  { 'E', 0x04, 0x04, {}, '-', "Switch Interface for Cash Transactions" },
  { 'E', 0x02, 0x02, {}, '-', "Switch Interface for Cashback Transactions" },
  { 'E', 0x01, 0x01, {}, '-', "Not valid for contactless ATM transactions" },
 } },
 { 1, {
  { 'E', 0x80, 0x80, {}, '-', "Consumer Device CVM Performed" },
  { 'E', 0x40, 0x40, {}, '-', "Card supports Issuer Update Processing at the POS" },
  { 'X', 0x3F, 0x00, {}, '-', "RFU" },
 } },
} },
{ "amex_caps", "emv_amex_cl_reader_caps_get_string", { 0x00 }, {
 { 0, {
  { 'E', 0xC8, 0x00, {}, '-', "Deprecated" },
  { 'E', 0x48, 0x08, {}, '-', "Not Available for Use" },
  { 'E', 0xC8, 0x40, {}, '-', "Mag-stripe CVM Not Required" },
  { 'E', 0xC8, 0x48, {}, '-', "Mag-stripe CVM Required" },
  { 'E', 0xC8, 0x80, {}, '-', "Deprecated - EMV and Mag-stripe" },
  { 'E', 0xC8, 0xC0, {}, '-', "EMV and Mag-stripe CVM Not Required" },
  { 'E', 0xC8, 0xC8, {}, '-', "EMV and Mag-stripe CVM Required" },
 } },
} },
{ "ffi1", "emv_visa_form_factor_indicator_get_string_list", { 0x20, 0x00, 0x00, 0x00 }, {
 { 0, {
  { 'E', 0x1F, 0x00, {}, '-', "Consumer Payment Device Form Factor: Card" },
  { 'E', 0x1F, 0x01, {}, '-', "Consumer Payment Device Form Factor: Mini-card" },
  { 'E', 0x1F, 0x02, {}, '-', "Consumer Payment Device Form Factor: Non-card Form Factor" },
  { 'E', 0x1F, 0x03, {}, '-', "Consumer Payment Device Form Factor: Consumer mobile phone" },
  { 'E', 0x1F, 0x04, {}, '-', "Consumer Payment Device Form Factor: Wrist-worn device" },
  { 'V', 0x1F, 0, { 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31 }, '-', "Consumer Payment Device Form Factor: Unknown" },
 } },
 { 1, {
  { 'E', 0x80, 0x80, {}, '-', "Consumer Payment Device Features: Passcode Capable" },
  { 'E', 0x40, 0x40, {}, '-', "Consumer Payment Device Features: Signature Panel" },
  { 'E', 0x20, 0x20, {}, '-', "Consumer Payment Device Features: Hologram" },
  { 'E', 0x10, 0x10, {}, '-', "Consumer Payment Device Features: CVV2" },
  { 'E', 0x08, 0x08, {}, '-', "Consumer Payment Device Features: Two-way Messaging" },
  { 'E', 0x04, 0x04, {}, '-', "Consumer Payment Device Features: Cloud Based Payment Credentials" },
  { 'E', 0x02, 0x02, {}, '-', "Consumer Payment Device Features: Biometric Cardholder Verification Capable" },
  { 'E', 0x01, 0x01, {}, '-', "Consumer Payment Device Features: RFU" },
 } },
 { 2, {
  { 'X', 0xFF, 0x00, {}, '-', "Form Factor Indicator (FFI) byte 3: RFU" },
 } },
 { 3, {
  { 'E', 0x0F, 0x00, {}, '-', "Payment Transaction Technology: Proximity Contactless interface using ISO 14443 (including NFC)" },
  { 'E', 0x0F, 0x01, {}, '-', "Payment Transaction Technology: Not used in VCPS" },
  { 'X', 0x0E, 0x00, {}, '-', "Payment Transaction Technology: Unknown" },
  { 'X', 0xF0, 0x00, {}, '-', "Payment Transaction Technology: RFU" },
 } },
} },
{ "amex_enh", "emv_amex_enh_cl_reader_caps_get_string_list", { 0x00, 0x00, 0x00, 0x00 }, {
 { 0, {
  { 'E', 0x80, 0x80, {}, '-', "Contact mode supported" },
  { 'E', 0x40, 0x40, {}, '-', "Contactless Mag-Stripe Mode supported" },
  { 'E', 0x20, 0x20, {}, '-', "Contactless EMV full online mode supported (legacy feature and no longer supported)" },
  { 'E', 0x10, 0x10, {}, '-', "Contactless EMV partial online mode supported" },
  { 'E', 0x08, 0x08, {}, '-', "Contactless Mobile Supported" },
  { 'E', 0x04, 0x04, {}, '-', "Try Another Interface after a decline" },
  { 'X', 0x03, 0x00, {}, '-', "RFU" },
 } },
 { 1, {
  { 'E', 0x80, 0x80, {}, '-', "Mobile CVM supported" },
  { 'E', 0x40, 0x40, {}, '-', "Online PIN supported" },
  { 'E', 0x20, 0x20, {}, '-', "Signature supported" },
  { 'E', 0x10, 0x10, {}, '-', "Plaintext Offline PIN supported" },
  { 'X', 0x0F, 0x00, {}, '-', "RFU" },
 } },
 { 2, {
  { 'E', 0x80, 0x80, {}, '-', "Reader is offline only" },
  { 'E', 0x40, 0x40, {}, '-', "CVM Required" },
  { 'X', 0x3F, 0x00, {}, '-', "RFU" },
 } },
 { 3, {
  { 'E', 0x80, 0x80, {}, '-', "Terminal exempt from No CVM checks" },
  { 'E', 0x40, 0x40, {}, '-', "Delayed Authorisation Terminal" },
  { 'E', 0x20, 0x20, {}, '-', "Transit Terminal" },
  { 'X', 0x18, 0x00, {}, '-', "RFU" },
  { 'V', 0x07, 0, { 0, 4, 5, 6, 7 }, '-', "C-4 kernel version unknown" },
  { 'E', 0x07, 0x01, {}, '-', "C-4 kernel version 2.2 - 2.3" },
  { 'E', 0x07, 0x02, {}, '-', "C-4 kernel version 2.4 - 2.6" },
  { 'E', 0x07, 0x03, {}, '-', "C-4 kernel version 2.7" },
 } },
} },
{ "iad_ccd", "emv_iad_get_string_list", { 0x0F, 0xA5, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x0F, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00 }, {
 { -1, { { 'A', 0, 0, {}, '-', "Application: CCD-Compliant" } } },
 { -1, { { 'A', 0, 0, {}, '-', "IAD Format: CCD Version 4.1" } } },
 { 1, {
  { 'E', 0x02, 0x00, {}, '-', "Cryptogram Version: TDES" },
  { 'E', 0x02, 0x02, {}, '-', "Cryptogram Version: AES" },
 } },
 { 2, {
  { 'A', 0x00, 0x00, {}, 'v', "Derivation Key Index (DKI): %02X" },
 } },
 { 3, {
  { 'E', 0xC0, 0x00, {}, '-', "Card Verification Results (CVR): Second GENERATE AC returned AAC" },
  { 'E', 0xC0, 0x40, {}, '-', "Card Verification Results (CVR): Second GENERATE AC returned TC" },
  { 'E', 0xC0, 0x80, {}, '-', "Card Verification Results (CVR): Second GENERATE AC Not Requested" },
  { 'E', 0xC0, 0xC0, {}, '-', "Card Verification Results (CVR): Second GENERATE AC RFU" },
  { 'E', 0x30, 0x00, {}, '-', "Card Verification Results (CVR): First GENERATE AC returned AAC" },
  { 'E', 0x30, 0x10, {}, '-', "Card Verification Results (CVR): First GENERATE AC returned TC" },
  { 'E', 0x30, 0x20, {}, '-', "Card Verification Results (CVR): First GENERATE AC returned ARQC" },
  { 'E', 0x30, 0x30, {}, '-', "Card Verification Results (CVR): First GENERATE AC RFU" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Combined DDA/Application Cryptogram Generation (CDA) Performed" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Offline Dynamic Data Authentication (DDA) Performed" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Issuer Authentication Not Performed" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): Issuer Authentication Failed" },
 } },
 { 4, {
  { 'A', 0x00, 0x00, {}, 'h', "Card Verification Results (CVR): PIN Try Counter is %u" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Offline PIN Verification Performed" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Offline PIN Verification Performed and PIN Not Successfully Verified" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): PIN Try Limit Exceeded" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): Last Online Transaction Not Completed" },
 } },
 { 5, {
  { 'E', 0x80, 0x80, {}, '-', "Card Verification Results (CVR): Lower Offline Transaction Count Limit Exceeded" },
  { 'E', 0x40, 0x40, {}, '-', "Card Verification Results (CVR): Upper Offline Transaction Count Limit Exceeded" },
  { 'E', 0x20, 0x20, {}, '-', "Card Verification Results (CVR): Lower Cumulative Offline Amount Limit Exceeded" },
  { 'E', 0x10, 0x10, {}, '-', "Card Verification Results (CVR): Upper Cumulative Offline Amount Limit Exceeded" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Issuer-discretionary bit 1" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Issuer-discretionary bit 2" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Issuer-discretionary bit 3" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): Issuer-discretionary bit 4" },
 } },
 { 6, {
  { 'X', 0xF0, 0x00, {}, 'h', "Card Verification Results (CVR): %u Successfully Processed Issuer Script Commands Containing Secure Messaging" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Issuer Script Processing Failed" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Offline Data Authentication Failed on Previous Transaction" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Go Online on Next Transaction Was Set" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): Unable to go Online" },
 } },
 { 7, {
  { 'X', 0xFF, 0x00, {}, '-', "Card Verification Results (CVR): RFU" },
 } },
} },
{ "iad_mchip4", "emv_iad_get_string_list", { 0x00, 0x10, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00 }, {
 { -1, { { 'A', 0, 0, {}, '-', "Application: M/Chip 4" } } },
 { 0, {
  { 'A', 0x00, 0x00, {}, 'v', "Derivation Key Index (DKI): %02X" },
 } },
 { 1, {
  { 'A', 0x00, 0x00, {}, 'v', "Cryptogram Version Number (CVN): %02X" },
  { 'E', 0x04, 0x00, {}, '-', "Cryptogram: Mastercard Proprietary SKD session key" },
  { 'E', 0x04, 0x04, {}, '-', "Cryptogram: EMV CSK session key" },
  { 'E', 0x01, 0x00, {}, '-', "Cryptogram: Counters not included in AC data" },
  { 'E', 0x01, 0x01, {}, '-', "Cryptogram: Counter included in AC data" },
 } },
 { 2, {
  { 'E', 0xC0, 0x00, {}, '-', "Card Verification Results (CVR): Second GENERATE AC returned AAC" },
  { 'E', 0xC0, 0x40, {}, '-', "Card Verification Results (CVR): Second GENERATE AC returned TC" },
  { 'E', 0xC0, 0x80, {}, '-', "Card Verification Results (CVR): Second GENERATE AC Not Requested" },
  { 'E', 0xC0, 0xC0, {}, '-', "Card Verification Results (CVR): Second GENERATE AC RFU" },
  { 'E', 0x30, 0x00, {}, '-', "Card Verification Results (CVR): First GENERATE AC returned AAC" },
  { 'E', 0x30, 0x10, {}, '-', "Card Verification Results (CVR): First GENERATE AC returned TC" },
  { 'E', 0x30, 0x20, {}, '-', "Card Verification Results (CVR): First GENERATE AC returned ARQC" },
  { 'E', 0x30, 0x30, {}, '-', "Card Verification Results (CVR): First GENERATE AC RFU" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Date Check Failed" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Offline PIN Verification Performed" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Offline Encrypted PIN Verification Performed" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): Offline PIN Verification Successful" },
 } },
 { 3, {
  { 'E', 0x80, 0x80, {}, '-', "Card Verification Results (CVR): Dynamic Data Authentication (DDA) Returned" },
  { 'E', 0x40, 0x40, {}, '-', "Card Verification Results (CVR): Combined DDA/Application Cryptogram Generation (CDA) Returned in First GENERATE AC" },
  { 'E', 0x20, 0x20, {}, '-', "Card Verification Results (CVR): Combined DDA/Application Cryptogram Generation (CDA) Returned in Second GENERATE AC" },
  { 'E', 0x10, 0x10, {}, '-', "Card Verification Results (CVR): Issuer Authentication Performed" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Card Issuer Action Codes (CIAC) Default Skipped on Cardholder Activated Terminal Level 3 (CAT3)" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Offline Change PIN Result Successful" },
  { 'X', 0x03, 0x00, {}, '-', "Card Verification Results (CVR): Issuer Discretionary" },
 } },
 { 4, {
  { 'X', 0xF0, 0x00, {}, 'h', "Card Verification Results (CVR): Script Counter is %u" },
  { 'X', 0x0F, 0x00, {}, 'l', "Card Verification Results (CVR): PIN Try Counter is %u" },
 } },
 { 5, {
  { 'E', 0x80, 0x80, {}, '-', "Card Verification Results (CVR): Last Online Transaction Not Completed" },
  { 'E', 0x40, 0x40, {}, '-', "Card Verification Results (CVR): Unable To Go Online" },
  { 'E', 0x20, 0x20, {}, '-', "Card Verification Results (CVR): Offline PIN Verification Not Performed" },
  { 'E', 0x10, 0x10, {}, '-', "Card Verification Results (CVR): Offline PIN Verification Failed" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): PTL Exceeded" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): International Transaction" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Domestic Transaction" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): Terminal Erroneously Considers Offline PIN OK" },
 } },
 { 6, {
  { 'E', 0x80, 0x80, {}, '-', "Card Verification Results (CVR): Lower Consecutive Offline Limit Exceeded" },
  { 'E', 0x40, 0x40, {}, '-', "Card Verification Results (CVR): Upper Consecutive Offline Limit Exceeded" },
  { 'E', 0x20, 0x20, {}, '-', "Card Verification Results (CVR): Lower Cumulative Offline Limit Exceeded" },
  { 'E', 0x10, 0x10, {}, '-', "Card Verification Results (CVR): Upper Cumulative Offline Limit Exceeded" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Go Online On Next Transaction Was Set" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Issuer Authentication Failed" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Script Received" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): Script Failed" },
 } },
 { 7, {
  { 'E', 0x80, 0x80, {}, '-', "Card Verification Results (CVR): Lower Consecutive Counter 2 Limit Exceeded" },
  { 'E', 0x40, 0x40, {}, '-', "Card Verification Results (CVR): Upper Consecutive Counter 2 Limit Exceeded" },
  { 'E', 0x20, 0x20, {}, '-', "Card Verification Results (CVR): Lower Cumulative Accumulator 2 Limit Exceeded" },
  { 'E', 0x10, 0x10, {}, '-', "Card Verification Results (CVR): Upper Cumulative Accumulator 2 Limit Exceeded" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): MTA Limit Exceeded" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Number Of Days Offline Limit Exceeded" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Match Found In Additional Check Table" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): No Match Found In Additional Check Table" },
 } },
} },
{ "iad_mchipadv20", "emv_iad_get_string_list", { 0x00, 0x10, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00 }, {
 { -1, { { 'A', 0, 0, {}, '-', "Application: M/Chip Advance" } } },
 { 0, {
  { 'A', 0x00, 0x00, {}, 'v', "Derivation Key Index (DKI): %02X" },
 } },
 { 1, {
  { 'A', 0x00, 0x00, {}, 'v', "Cryptogram Version Number (CVN): %02X" },
  { 'E', 0x04, 0x00, {}, '-', "Cryptogram: Mastercard Proprietary SKD session key" },
  { 'E', 0x04, 0x04, {}, '-', "Cryptogram: EMV CSK session key" },
  { 'E', 0x01, 0x00, {}, '-', "Cryptogram: Counters not included in AC data" },
  { 'E', 0x01, 0x01, {}, '-', "Cryptogram: Counter included in AC data" },
 } },
 { 2, {
  { 'E', 0xC0, 0x00, {}, '-', "Card Verification Results (CVR): Second GENERATE AC returned AAC" },
  { 'E', 0xC0, 0x40, {}, '-', "Card Verification Results (CVR): Second GENERATE AC returned TC" },
  { 'E', 0xC0, 0x80, {}, '-', "Card Verification Results (CVR): Second GENERATE AC Not Requested" },
  { 'E', 0xC0, 0xC0, {}, '-', "Card Verification Results (CVR): Second GENERATE AC RFU" },
  { 'E', 0x30, 0x00, {}, '-', "Card Verification Results (CVR): First GENERATE AC returned AAC" },
  { 'E', 0x30, 0x10, {}, '-', "Card Verification Results (CVR): First GENERATE AC returned TC" },
  { 'E', 0x30, 0x20, {}, '-', "Card Verification Results (CVR): First GENERATE AC returned ARQC" },
  { 'E', 0x30, 0x30, {}, '-', "Card Verification Results (CVR): First GENERATE AC RFU" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Date Check Failed" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Offline PIN Verification Performed" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Offline Encrypted PIN Verification Performed" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): Offline PIN Verification Successful" },
 } },
 { 3, {
  { 'E', 0x80, 0x80, {}, '-', "Card Verification Results (CVR): Dynamic Data Authentication (DDA) Returned" },
  { 'E', 0x40, 0x40, {}, '-', "Card Verification Results (CVR): Combined DDA/Application Cryptogram Generation (CDA) Returned in First GENERATE AC" },
  { 'E', 0x20, 0x20, {}, '-', "Card Verification Results (CVR): Combined DDA/Application Cryptogram Generation (CDA) Returned in Second GENERATE AC" },
  { 'E', 0x10, 0x10, {}, '-', "Card Verification Results (CVR): Issuer Authentication Performed" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Card Issuer Action Codes (CIAC) Default Skipped on Cardholder Activated Terminal Level 3 (CAT3)" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Offline Change PIN Result Successful" },
  { 'X', 0x03, 0x00, {}, '-', "Card Verification Results (CVR): Issuer Discretionary" },
 } },
 { 4, {
  { 'X', 0xF0, 0x00, {}, 'h', "Card Verification Results (CVR): Script Counter is %u" },
  { 'X', 0x0F, 0x00, {}, 'l', "Card Verification Results (CVR): PIN Try Counter is %u" },
 } },
 { 5, {
  { 'E', 0x80, 0x80, {}, '-', "Card Verification Results (CVR): Last Online Transaction Not Completed" },
  { 'E', 0x40, 0x40, {}, '-', "Card Verification Results (CVR): Unable To Go Online" },
  { 'E', 0x20, 0x20, {}, '-', "Card Verification Results (CVR): Offline PIN Verification Not Performed" },
  { 'E', 0x10, 0x10, {}, '-', "Card Verification Results (CVR): Offline PIN Verification Failed" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): PTL Exceeded" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): International Transaction" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Domestic Transaction" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): Terminal Erroneously Considers Offline PIN OK" },
 } },
 { 6, {
  { 'E', 0x80, 0x80, {}, '-', "Card Verification Results (CVR): Lower Consecutive Counter 1 Limit Exceeded" },
  { 'E', 0x40, 0x40, {}, '-', "Card Verification Results (CVR): Upper Consecutive Counter 1 Limit Exceeded" },
  { 'E', 0x20, 0x20, {}, '-', "Card Verification Results (CVR): Lower Cumulative Accumulator Limit Exceeded" },
  { 'E', 0x10, 0x10, {}, '-', "Card Verification Results (CVR): Upper Cumulative Accumulator Limit Exceeded" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Go Online On Next Transaction Was Set" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Issuer Authentication Failed" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Script Received" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): Script Failed" },
 } },
 { 7, {
  { 'E', 0x80, 0x80, {}, '-', "Card Verification Results (CVR): Lower Consecutive Counter 2 Limit Exceeded" },
  { 'E', 0x40, 0x40, {}, '-', "Card Verification Results (CVR): Upper Consecutive Counter 2 Limit Exceeded" },
  { 'E', 0x20, 0x20, {}, '-', "Card Verification Results (CVR): Lower Cumulative Accumulator 2 Limit Exceeded" },
  { 'E', 0x10, 0x10, {}, '-', "Card Verification Results (CVR): Upper Cumulative Accumulator 2 Limit Exceeded" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): MTA Limit Exceeded" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Number Of Days Offline Limit Exceeded" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Match Found In Additional Check Table" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): No Match Found In Additional Check Table" },
 } },
} },
{ "iad_mchipadv26", "emv_iad_get_string_list", { 0x00, 0x10, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00 }, {
 { -1, { { 'A', 0, 0, {}, '-', "Application: M/Chip Advance" } } },
 { 0, {
  { 'A', 0x00, 0x00, {}, 'v', "Derivation Key Index (DKI): %02X" },
 } },
 { 1, {
  { 'A', 0x00, 0x00, {}, 'v', "Cryptogram Version Number (CVN): %02X" },
  { 'E', 0x04, 0x00, {}, '-', "Cryptogram: Mastercard Proprietary SKD session key" },
  { 'E', 0x04, 0x04, {}, '-', "Cryptogram: EMV CSK session key" },
  { 'E', 0x01, 0x00, {}, '-', "Cryptogram: Counters not included in AC data" },
  { 'E', 0x01, 0x01, {}, '-', "Cryptogram: Counter included in AC data" },
 } },
 { 2, {
  { 'E', 0xC0, 0x00, {}, '-', "Card Verification Results (CVR): Second GENERATE AC returned AAC" },
  { 'E', 0xC0, 0x40, {}, '-', "Card Verification Results (CVR): Second GENERATE AC returned TC" },
  { 'E', 0xC0, 0x80, {}, '-', "Card Verification Results (CVR): Second GENERATE AC Not Requested" },
  { 'E', 0xC0, 0xC0, {}, '-', "Card Verification Results (CVR): Second GENERATE AC RFU" },
  { 'E', 0x30, 0x00, {}, '-', "Card Verification Results (CVR): First GENERATE AC returned AAC" },
  { 'E', 0x30, 0x10, {}, '-', "Card Verification Results (CVR): First GENERATE AC returned TC" },
  { 'E', 0x30, 0x20, {}, '-', "Card Verification Results (CVR): First GENERATE AC returned ARQC" },
  { 'E', 0x30, 0x30, {}, '-', "Card Verification Results (CVR): First GENERATE AC RFU" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Date Check Failed" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Offline PIN Verification Performed" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Offline Encrypted PIN Verification Performed" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): Offline PIN Verification Successful" },
 } },
 { 3, {
  { 'E', 0x80, 0x80, {}, '-', "Card Verification Results (CVR): Dynamic Data Authentication (DDA) Returned" },
  { 'E', 0x40, 0x40, {}, '-', "Card Verification Results (CVR): Combined DDA/Application Cryptogram Generation (CDA) Returned in First GENERATE AC" },
  { 'E', 0x20, 0x20, {}, '-', "Card Verification Results (CVR): Combined DDA/Application Cryptogram Generation (CDA) Returned in Second GENERATE AC" },
  { 'E', 0x10, 0x10, {}, '-', "Card Verification Results (CVR): Issuer Authentication Performed" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Card Issuer Action Codes (CIAC) Default Skipped on Cardholder Activated Terminal Level 3 (CAT3)" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Offline Change PIN Result Successful" },
  { 'X', 0x03, 0x00, {}, '-', "Card Verification Results (CVR): Issuer Discretionary" },
 } },
 { 4, {
  { 'X', 0xF0, 0x00, {}, 'h', "Card Verification Results (CVR): Script Counter is %u" },
  { 'X', 0x0F, 0x00, {}, 'l', "Card Verification Results (CVR): PIN Try Counter is %u" },
 } },
 { 5, {
  { 'E', 0x80, 0x80, {}, '-', "Card Verification Results (CVR): Last Online Transaction Not Completed" },
  { 'E', 0x40, 0x40, {}, '-', "Card Verification Results (CVR): Unable To Go Online" },
  { 'E', 0x20, 0x20, {}, '-', "Card Verification Results (CVR): Offline PIN Verification Not Performed" },
  { 'E', 0x10, 0x10, {}, '-', "Card Verification Results (CVR): Offline PIN Verification Failed" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): PTL Exceeded" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): International Transaction" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Domestic Transaction" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): Terminal Erroneously Considers Offline PIN OK" },
 } },
 { 6, {
  { 'E', 0x80, 0x80, {}, '-', "Card Verification Results (CVR): Lower Consecutive Counter 1 Limit Exceeded" },
  { 'E', 0x40, 0x40, {}, '-', "Card Verification Results (CVR): Upper Consecutive Counter 1 Limit Exceeded" },
  { 'E', 0x20, 0x20, {}, '-', "Card Verification Results (CVR): Lower Cumulative Accumulator Limit Exceeded" },
  { 'E', 0x10, 0x10, {}, '-', "Card Verification Results (CVR): Upper Cumulative Accumulator Limit Exceeded" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Go Online On Next Transaction Was Set" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Issuer Authentication Failed" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Script Received" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): Script Failed" },
 } },
 { 7, {
  { 'E', 0x80, 0x80, {}, '-', "Card Verification Results (CVR): Lower Consecutive Counter 2 Limit Exceeded" },
  { 'E', 0x40, 0x40, {}, '-', "Card Verification Results (CVR): Upper Consecutive Counter 2 Limit Exceeded" },
  { 'E', 0x20, 0x20, {}, '-', "Card Verification Results (CVR): Lower Cumulative Accumulator 2 Limit Exceeded" },
  { 'E', 0x10, 0x10, {}, '-', "Card Verification Results (CVR): Upper Cumulative Accumulator 2 Limit Exceeded" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): MTA Limit Exceeded" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Number Of Days Offline Limit Exceeded" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Match Found In Additional Check Table" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): No Match Found In Additional Check Table" },
 } },
} },
{ "iad_mchipadv28", "emv_iad_get_string_list", { 0x00, 0x10, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00 }, {
 { -1, { { 'A', 0, 0, {}, '-', "Application: M/Chip Advance" } } },
 { 0, {
  { 'A', 0x00, 0x00, {}, 'v', "Derivation Key Index (DKI): %02X" },
 } },
 { 1, {
  { 'A', 0x00, 0x00, {}, 'v', "Cryptogram Version Number (CVN): %02X" },
  { 'E', 0x04, 0x00, {}, '-', "Cryptogram: Mastercard Proprietary SKD session key" },
  { 'E', 0x04, 0x04, {}, '-', "Cryptogram: EMV CSK session key" },
  { 'E', 0x01, 0x00, {}, '-', "Cryptogram: Counters not included in AC data" },
  { 'E', 0x01, 0x01, {}, '-', "Cryptogram: Counter included in AC data" },
 } },
 { 2, {
  { 'E', 0xC0, 0x00, {}, '-', "Card Verification Results (CVR): Second GENERATE AC returned AAC" },
  { 'E', 0xC0, 0x40, {}, '-', "Card Verification Results (CVR): Second GENERATE AC returned TC" },
  { 'E', 0xC0, 0x80, {}, '-', "Card Verification Results (CVR): Second GENERATE AC Not Requested" },
  { 'E', 0xC0, 0xC0, {}, '-', "Card Verification Results (CVR): Second GENERATE AC RFU" },
  { 'E', 0x30, 0x00, {}, '-', "Card Verification Results (CVR): First GENERATE AC returned AAC" },
  { 'E', 0x30, 0x10, {}, '-', "Card Verification Results (CVR): First GENERATE AC returned TC" },
  { 'E', 0x30, 0x20, {}, '-', "Card Verification Results (CVR): First GENERATE AC returned ARQC" },
  { 'E', 0x30, 0x30, {}, '-', "Card Verification Results (CVR): First GENERATE AC RFU" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Date Check Failed" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Offline PIN Verification Performed" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Offline Encrypted PIN Verification Performed" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): Offline PIN Verification Successful" },
 } },
 { 3, {
  { 'E', 0x80, 0x80, {}, '-', "Card Verification Results (CVR): Dynamic Data Authentication (DDA) Returned" },
  { 'E', 0x40, 0x40, {}, '-', "Card Verification Results (CVR): Combined DDA/Application Cryptogram Generation (CDA) Returned in First GENERATE AC" },
  { 'E', 0x20, 0x20, {}, '-', "Card Verification Results (CVR): Combined DDA/Application Cryptogram Generation (CDA) Returned in Second GENERATE AC" },
  { 'E', 0x10, 0x10, {}, '-', "Card Verification Results (CVR): Issuer Authentication Performed" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Card Issuer Action Codes (CIAC) Default Skipped on Cardholder Activated Terminal Level 3 (CAT3)" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Offline Change PIN Result Successful" },
  { 'X', 0x03, 0x00, {}, '-', "Card Verification Results (CVR): Issuer Discretionary" },
 } },
 { 4, {
  { 'X', 0xF0, 0x00, {}, 'h', "Card Verification Results (CVR): Script Counter is %u" },
  { 'X', 0x0F, 0x00, {}, 'l', "Card Verification Results (CVR): PIN Try Counter is %u" },
 } },
 { 5, {
  { 'E', 0x80, 0x80, {}, '-', "Card Verification Results (CVR): Last Online Transaction Not Completed" },
  { 'E', 0x40, 0x40, {}, '-', "Card Verification Results (CVR): Unable To Go Online" },
  { 'E', 0x20, 0x20, {}, '-', "Card Verification Results (CVR): Offline PIN Verification Not Performed" },
  { 'E', 0x10, 0x10, {}, '-', "Card Verification Results (CVR): Offline PIN Verification Failed" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): PTL Exceeded" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): International Transaction" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Domestic Transaction" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): Terminal Erroneously Considers Offline PIN OK" },
 } },
 { 6, {
  { 'E', 0x80, 0x80, {}, '-', "Card Verification Results (CVR): Lower Consecutive Counter 1 Limit Exceeded" },
  { 'E', 0x40, 0x40, {}, '-', "Card Verification Results (CVR): Upper Consecutive Counter 1 Limit Exceeded" },
  { 'E', 0x20, 0x20, {}, '-', "Card Verification Results (CVR): Lower Cumulative Accumulator Limit Exceeded" },
  { 'E', 0x10, 0x10, {}, '-', "Card Verification Results (CVR): Upper Cumulative Accumulator Limit Exceeded" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Go Online On Next Transaction Was Set" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Issuer Authentication Failed" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Script Received" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): Script Failed" },
 } },
 { 7, {
  { 'E', 0x80, 0x80, {}, '-', "Card Verification Results (CVR): Lower Consecutive Counter 2 Limit Exceeded" },
  { 'E', 0x40, 0x40, {}, '-', "Card Verification Results (CVR): Upper Consecutive Counter 2 Limit Exceeded" },
  { 'E', 0x20, 0x20, {}, '-', "Card Verification Results (CVR): Lower Cumulative Accumulator 2 Limit Exceeded" },
  { 'E', 0x10, 0x10, {}, '-', "Card Verification Results (CVR): Upper Cumulative Accumulator 2 Limit Exceeded" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): MTA Limit Exceeded" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Number Of Days Offline Limit Exceeded" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Match Found In Additional Check Table" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): No Match Found In Additional Check Table" },
 } },
} },
{ "iad_vsdc0", "emv_iad_get_string_list", { 0x06, 0x00, 0x00, 0x03, 0x00, 0x00, 0x00 }, {
 { -1, { { 'A', 0, 0, {}, '-', "Application: Visa Smart Debit/Credit (VSDC)" } } },
 { -1, { { 'A', 0, 0, {}, '-', "IAD Format: 0" } } },
 { 1, {
  { 'A', 0x00, 0x00, {}, 'v', "Derivation Key Index (DKI): %02X" },
 } },
 { 2, {
  { 'A', 0x00, 0x00, {}, 'v', "Cryptogram Version Number (CVN): %02X (CVN%02u)" },
 } },
 { 4, {
  { 'E', 0xC0, 0x00, {}, '-', "Card Verification Results (CVR): Second GENERATE AC returned AAC" },
  { 'E', 0xC0, 0x40, {}, '-', "Card Verification Results (CVR): Second GENERATE AC returned TC" },
  { 'E', 0xC0, 0x80, {}, '-', "Card Verification Results (CVR): Second GENERATE AC Not Requested" },
  { 'E', 0xC0, 0xC0, {}, '-', "Card Verification Results (CVR): Second GENERATE AC RFU" },
  { 'E', 0x30, 0x00, {}, '-', "Card Verification Results (CVR): First GENERATE AC returned AAC" },
  { 'E', 0x30, 0x10, {}, '-', "Card Verification Results (CVR): First GENERATE AC returned TC" },
  { 'E', 0x30, 0x20, {}, '-', "Card Verification Results (CVR): First GENERATE AC returned ARQC" },
  { 'E', 0x30, 0x30, {}, '-', "Card Verification Results (CVR): First GENERATE AC RFU" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Issuer Authentication performed and failed" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Offline PIN verification performed" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Offline PIN verification failed" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): Unable to go online" },
 } },
 { 5, {
  { 'E', 0x80, 0x80, {}, '-', "Card Verification Results (CVR): Last online transaction not completed" },
  { 'E', 0x40, 0x40, {}, '-', "Card Verification Results (CVR): PIN Try Limit exceeded" },
  { 'E', 0x20, 0x20, {}, '-', "Card Verification Results (CVR): Exceeded velocity checking counters" },
  { 'E', 0x10, 0x10, {}, '-', "Card Verification Results (CVR): New card" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Issuer Authentication failure on last online transaction" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Issuer Authentication not performed after online authorization" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Application blocked by card because PIN Try Limit exceeded" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): Offline static data authentication failed on last transaction" },
 } },
 { 6, {
  { 'X', 0xF0, 0x00, {}, 'h', "Card Verification Results (CVR): Script Counter is %u" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Issuer Script processing failed" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Offline dynamic data authentication failed on last transaction" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Offline dynamic data authentication performed" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): PIN verification command not received for a PIN-Expecting card" },
 } },
} },
{ "iad_vsdc1", "emv_iad_get_string_list", { 0x06, 0x00, 0x10, 0x03, 0x00, 0x00, 0x00 }, {
 { -1, { { 'A', 0, 0, {}, '-', "Application: Visa Smart Debit/Credit (VSDC)" } } },
 { -1, { { 'A', 0, 0, {}, '-', "IAD Format: 1" } } },
 { 1, {
  { 'A', 0x00, 0x00, {}, 'v', "Derivation Key Index (DKI): %02X" },
 } },
 { 2, {
  { 'A', 0x00, 0x00, {}, 'v', "Cryptogram Version Number (CVN): %02X (CVN%02u)" },
 } },
 { 4, {
  { 'E', 0xC0, 0x00, {}, '-', "Card Verification Results (CVR): Second GENERATE AC returned AAC" },
  { 'E', 0xC0, 0x40, {}, '-', "Card Verification Results (CVR): Second GENERATE AC returned TC" },
  { 'E', 0xC0, 0x80, {}, '-', "Card Verification Results (CVR): Second GENERATE AC Not Requested" },
  { 'E', 0xC0, 0xC0, {}, '-', "Card Verification Results (CVR): Second GENERATE AC RFU" },
  { 'E', 0x30, 0x00, {}, '-', "Card Verification Results (CVR): First GENERATE AC returned AAC" },
  { 'E', 0x30, 0x10, {}, '-', "Card Verification Results (CVR): First GENERATE AC returned TC" },
  { 'E', 0x30, 0x20, {}, '-', "Card Verification Results (CVR): First GENERATE AC returned ARQC" },
  { 'E', 0x30, 0x30, {}, '-', "Card Verification Results (CVR): First GENERATE AC RFU" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Issuer Authentication performed and failed" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Offline PIN verification performed" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Offline PIN verification failed" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): Unable to go online" },
 } },
 { 5, {
  { 'E', 0x80, 0x80, {}, '-', "Card Verification Results (CVR): Last online transaction not completed" },
  { 'E', 0x40, 0x40, {}, '-', "Card Verification Results (CVR): PIN Try Limit exceeded" },
  { 'E', 0x20, 0x20, {}, '-', "Card Verification Results (CVR): Exceeded velocity checking counters" },
  { 'E', 0x10, 0x10, {}, '-', "Card Verification Results (CVR): New card" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Issuer Authentication failure on last online transaction" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Issuer Authentication not performed after online authorization" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Application blocked by card because PIN Try Limit exceeded" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): Offline static data authentication failed on last transaction" },
 } },
 { 6, {
  { 'X', 0xF0, 0x00, {}, 'h', "Card Verification Results (CVR): Script Counter is %u" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Issuer Script processing failed" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Offline dynamic data authentication failed on last transaction" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Offline dynamic data authentication performed" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): PIN verification command not received for a PIN-Expecting card" },
 } },
} },
{ "iad_vsdc3", "emv_iad_get_string_list", { 0x06, 0x00, 0x30, 0x03, 0x00, 0x00, 0x00 }, {
 { -1, { { 'A', 0, 0, {}, '-', "Application: Visa Smart Debit/Credit (VSDC)" } } },
 { -1, { { 'A', 0, 0, {}, '-', "IAD Format: 3" } } },
 { 1, {
  { 'A', 0x00, 0x00, {}, 'v', "Derivation Key Index (DKI): %02X" },
 } },
 { 2, {
  { 'A', 0x00, 0x00, {}, 'v', "Cryptogram Version Number (CVN): %02X (CVN%02u)" },
 } },
 { 4, {
  { 'E', 0xC0, 0x00, {}, '-', "Card Verification Results (CVR): Second GENERATE AC returned AAC" },
  { 'E', 0xC0, 0x40, {}, '-', "Card Verification Results (CVR): Second GENERATE AC returned TC" },
  { 'E', 0xC0, 0x80, {}, '-', "Card Verification Results (CVR): Second GENERATE AC Not Requested" },
  { 'E', 0xC0, 0xC0, {}, '-', "Card Verification Results (CVR): Second GENERATE AC RFU" },
  { 'E', 0x30, 0x00, {}, '-', "Card Verification Results (CVR): First GENERATE AC returned AAC" },
  { 'E', 0x30, 0x10, {}, '-', "Card Verification Results (CVR): First GENERATE AC returned TC" },
  { 'E', 0x30, 0x20, {}, '-', "Card Verification Results (CVR): First GENERATE AC returned ARQC" },
  { 'E', 0x30, 0x30, {}, '-', "Card Verification Results (CVR): First GENERATE AC RFU" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Issuer Authentication performed and failed" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Offline PIN verification performed" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Offline PIN verification failed" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): Unable to go online" },
 } },
 { 5, {
  { 'E', 0x80, 0x80, {}, '-', "Card Verification Results (CVR): Last online transaction not completed" },
  { 'E', 0x40, 0x40, {}, '-', "Card Verification Results (CVR): PIN Try Limit exceeded" },
  { 'E', 0x20, 0x20, {}, '-', "Card Verification Results (CVR): Exceeded velocity checking counters" },
  { 'E', 0x10, 0x10, {}, '-', "Card Verification Results (CVR): New card" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Issuer Authentication failure on last online transaction" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Issuer Authentication not performed after online authorization" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Application blocked by card because PIN Try Limit exceeded" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): Offline static data authentication failed on last transaction" },
 } },
 { 6, {
  { 'X', 0xF0, 0x00, {}, 'h', "Card Verification Results (CVR): Script Counter is %u" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Issuer Script processing failed" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Offline dynamic data authentication failed on last transaction" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Offline dynamic data authentication performed" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): PIN verification command not received for a PIN-Expecting card" },
 } },
} },
{ "iad_vsdc2", "emv_iad_get_string_list", { 0x1F, 0x20, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00 }, {
 { -1, { { 'A', 0, 0, {}, '-', "Application: Visa Smart Debit/Credit (VSDC)" } } },
 { -1, { { 'A', 0, 0, {}, '-', "IAD Format: 2" } } },
 { 1, {
  { 'A', 0x00, 0x00, {}, 'v', "Cryptogram Version Number (CVN): %02X (CVN'%02X')" },
 } },
 { 2, {
  { 'A', 0x00, 0x00, {}, 'v', "Derivation Key Index (DKI): %02X" },
 } },
 { 3, {
  { 'E', 0xFF, 0x00, {}, '-', "No CDCVM" },
  { 'E', 0xF0, 0x10, {}, '-', "Card Verification Results (CVR): Visa Mobile Payment Application (VMPA)" },
  { 'E', 0xF0, 0x20, {}, '-', "Card Verification Results (CVR): MG" },
  { 'E', 0xF0, 0x30, {}, '-', "Card Verification Results (CVR): Co-residing SE app" },
  { 'E', 0xF0, 0x40, {}, '-', "Card Verification Results (CVR): TEE app" },
  { 'E', 0xF0, 0x50, {}, '-', "Card Verification Results (CVR): Mobile Application" },
  { 'E', 0xF0, 0x60, {}, '-', "Card Verification Results (CVR): Terminal" },
  { 'E', 0xF0, 0x70, {}, '-', "Card Verification Results (CVR): Verified in the cloud" },
  { 'E', 0xF0, 0x80, {}, '-', "Card Verification Results (CVR): Verified by the mobile device OS" },
  { 'E', 0x0F, 0x01, {}, '-', "Card Verification Results (CVR): Passcode" },
  { 'E', 0x0F, 0x02, {}, '-', "Card Verification Results (CVR): Finger biometric" },
  { 'E', 0x0F, 0x03, {}, '-', "Card Verification Results (CVR): Mobile device pattern" },
  { 'E', 0x0F, 0x04, {}, '-', "Card Verification Results (CVR): Facial biometric" },
  { 'E', 0x0F, 0x05, {}, '-', "Card Verification Results (CVR): Iris biometric" },
  { 'E', 0x0F, 0x06, {}, '-', "Card Verification Results (CVR): Voice biometric" },
  { 'E', 0x0F, 0x07, {}, '-', "Card Verification Results (CVR): Palm biometric" },
  { 'E', 0x0F, 0x0D, {}, '-', "Card Verification Results (CVR): Signature" },
  { 'E', 0x0F, 0x0E, {}, '-', "Card Verification Results (CVR): Online PIN" },
 } },
 { 4, {
  { 'E', 0xC0, 0x00, {}, '-', "Card Verification Results (CVR): Second GENERATE AC returned AAC" },
  { 'E', 0xC0, 0x40, {}, '-', "Card Verification Results (CVR): Second GENERATE AC returned TC" },
  { 'E', 0xC0, 0x80, {}, '-', "Card Verification Results (CVR): Second GENERATE AC Not Requested" },
  { 'E', 0xC0, 0xC0, {}, '-', "Card Verification Results (CVR): Second GENERATE AC RFU" },
  { 'E', 0x30, 0x00, {}, '-', "Card Verification Results (CVR): GPO returned AAC" },
  { 'E', 0x30, 0x10, {}, '-', "Card Verification Results (CVR): GPO returned TC" },
  { 'E', 0x30, 0x20, {}, '-', "Card Verification Results (CVR): GPO returned ARQC" },
  { 'E', 0x30, 0x30, {}, '-', "Card Verification Results (CVR): GPO RFU" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Issuer Authentication performed and failed" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): CDCVM successfully performed" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): RFU" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): Unable to go online" },
 } },
 { 5, {
  { 'E', 0x80, 0x80, {}, '-', "Card Verification Results (CVR): Last online transaction not completed" },
  { 'E', 0x40, 0x40, {}, '-', "Card Verification Results (CVR): PIN Try Limit exceeded" },
  { 'E', 0x20, 0x20, {}, '-', "Card Verification Results (CVR): Exceeded velocity checking counters" },
  { 'E', 0x10, 0x10, {}, '-', "Card Verification Results (CVR): New card" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Issuer Authentication failure on last online transaction" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Issuer Authentication not performed after online authorization" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Application blocked by card because PIN Try Limit exceeded" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): Offline static data authentication failed on last transaction" },
 } },
 { 6, {
  { 'X', 0xF0, 0x00, {}, 'h', "Card Verification Results (CVR): Script Counter is %u" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Issuer Script processing failed" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Offline dynamic data authentication failed on last transaction" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Offline dynamic data authentication performed" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): PIN verification command not received for a PIN-Expecting card" },
 } },
 { 7, {
  { 'E', 0x80, 0x80, {}, '-', "Card Verification Results (CVR): Consumer Device is not in debug mode" },
  { 'E', 0x40, 0x40, {}, '-', "Card Verification Results (CVR): Consumer Device is not a rooted device" },
  { 'E', 0x20, 0x20, {}, '-', "Card Verification Results (CVR): Mobile Application is not hooked" },
  { 'E', 0x10, 0x10, {}, '-', "Card Verification Results (CVR): Mobile Application integrity is intact" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Consumer Device has data connectivity" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Consumer Device is genuine" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): CDCVM successfully performed" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): Secure Messaging uses EMV Session key-based derivation" },
 } },
} },
{ "iad_vsdc4", "emv_iad_get_string_list", { 0x1F, 0x40, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00 }, {
 { -1, { { 'A', 0, 0, {}, '-', "Application: Visa Smart Debit/Credit (VSDC)" } } },
 { -1, { { 'A', 0, 0, {}, '-', "IAD Format: 4" } } },
 { 1, {
  { 'A', 0x00, 0x00, {}, 'v', "Cryptogram Version Number (CVN): %02X (CVN'%02X')" },
 } },
 { 2, {
  { 'A', 0x00, 0x00, {}, 'v', "Derivation Key Index (DKI): %02X" },
 } },
 { 3, {
  { 'E', 0xFF, 0x00, {}, '-', "No CDCVM" },
  { 'E', 0xF0, 0x10, {}, '-', "Card Verification Results (CVR): Visa Mobile Payment Application (VMPA)" },
  { 'E', 0xF0, 0x20, {}, '-', "Card Verification Results (CVR): MG" },
  { 'E', 0xF0, 0x30, {}, '-', "Card Verification Results (CVR): Co-residing SE app" },
  { 'E', 0xF0, 0x40, {}, '-', "Card Verification Results (CVR): TEE app" },
  { 'E', 0xF0, 0x50, {}, '-', "Card Verification Results (CVR): Mobile Application" },
  { 'E', 0xF0, 0x60, {}, '-', "Card Verification Results (CVR): Terminal" },
  { 'E', 0xF0, 0x70, {}, '-', "Card Verification Results (CVR): Verified in the cloud" },
  { 'E', 0xF0, 0x80, {}, '-', "Card Verification Results (CVR): Verified by the mobile device OS" },
  { 'E', 0x0F, 0x01, {}, '-', "Card Verification Results (CVR): Passcode" },
  { 'E', 0x0F, 0x02, {}, '-', "Card Verification Results (CVR): Finger biometric" },
  { 'E', 0x0F, 0x03, {}, '-', "Card Verification Results (CVR): Mobile device pattern" },
  { 'E', 0x0F, 0x04, {}, '-', "Card Verification Results (CVR): Facial biometric" },
  { 'E', 0x0F, 0x05, {}, '-', "Card Verification Results (CVR): Iris biometric" },
  { 'E', 0x0F, 0x06, {}, '-', "Card Verification Results (CVR): Voice biometric" },
  { 'E', 0x0F, 0x07, {}, '-', "Card Verification Results (CVR): Palm biometric" },
  { 'E', 0x0F, 0x0D, {}, '-', "Card Verification Results (CVR): Signature" },
  { 'E', 0x0F, 0x0E, {}, '-', "Card Verification Results (CVR): Online PIN" },
 } },
 { 4, {
  { 'E', 0xC0, 0x00, {}, '-', "Card Verification Results (CVR): Second GENERATE AC returned AAC" },
  { 'E', 0xC0, 0x40, {}, '-', "Card Verification Results (CVR): Second GENERATE AC returned TC" },
  { 'E', 0xC0, 0x80, {}, '-', "Card Verification Results (CVR): Second GENERATE AC Not Requested" },
  { 'E', 0xC0, 0xC0, {}, '-', "Card Verification Results (CVR): Second GENERATE AC RFU" },
  { 'E', 0x30, 0x00, {}, '-', "Card Verification Results (CVR): GPO returned AAC" },
  { 'E', 0x30, 0x10, {}, '-', "Card Verification Results (CVR): GPO returned TC" },
  { 'E', 0x30, 0x20, {}, '-', "Card Verification Results (CVR): GPO returned ARQC" },
  { 'E', 0x30, 0x30, {}, '-', "Card Verification Results (CVR): GPO RFU" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Issuer Authentication performed and failed" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): CDCVM successfully performed" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): RFU" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): Unable to go online" },
 } },
 { 5, {
  { 'E', 0x80, 0x80, {}, '-', "Card Verification Results (CVR): Last online transaction not completed" },
  { 'E', 0x40, 0x40, {}, '-', "Card Verification Results (CVR): PIN Try Limit exceeded" },
  { 'E', 0x20, 0x20, {}, '-', "Card Verification Results (CVR): Exceeded velocity checking counters" },
  { 'E', 0x10, 0x10, {}, '-', "Card Verification Results (CVR): New card" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Issuer Authentication failure on last online transaction" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Issuer Authentication not performed after online authorization" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Application blocked by card because PIN Try Limit exceeded" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): Offline static data authentication failed on last transaction" },
 } },
 { 6, {
  { 'X', 0xF0, 0x00, {}, 'h', "Card Verification Results (CVR): Script Counter is %u" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Issuer Script processing failed" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Offline dynamic data authentication failed on last transaction" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): Offline dynamic data authentication performed" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): PIN verification command not received for a PIN-Expecting card" },
 } },
 { 7, {
  { 'E', 0x80, 0x80, {}, '-', "Card Verification Results (CVR): Consumer Device is not in debug mode" },
  { 'E', 0x40, 0x40, {}, '-', "Card Verification Results (CVR): Consumer Device is not a rooted device" },
  { 'E', 0x20, 0x20, {}, '-', "Card Verification Results (CVR): Mobile Application is not hooked" },
  { 'E', 0x10, 0x10, {}, '-', "Card Verification Results (CVR): Mobile Application integrity is intact" },
  { 'E', 0x08, 0x08, {}, '-', "Card Verification Results (CVR): Consumer Device has data connectivity" },
  { 'E', 0x04, 0x04, {}, '-', "Card Verification Results (CVR): Consumer Device is genuine" },
  { 'E', 0x02, 0x02, {}, '-', "Card Verification Results (CVR): CDCVM successfully performed" },
  { 'E', 0x01, 0x01, {}, '-', "Card Verification Results (CVR): Secure Messaging uses EMV Session key-based derivation" },
 } },
} },
{ "card_service", "iso7816_card_service_data_get_string_list", { 0x00 }, {
 { 0, {
  { 'E', 0x80, 0x80, {}, '-', "Application selection: by full DF name" },
  { 'E', 0x40, 0x40, {}, '-', "Application selection: by partial DF name" },
  { 'E', 0x20, 0x20, {}, '-', "BER-TLV data objects available in EF.DIR" },
  { 'E', 0x10, 0x10, {}, '-', "BER-TLV data objects available in EF.ATR" },
  { 'E', 0x0E, 0x00, {}, '-', "EF.DIR and EF.ATR access services: by READ RECORD(S) command (record structure)" },
  { 'V', 0x0E, 0, { 2, 6, 10, 12, 14 }, '-', "EF.DIR and EF.ATR access services: Unknown value" },
  { 'E', 0x0E, 0x04, {}, '-', "EF.DIR and EF.ATR access services: by GET DATA command (TLV structure)" },
  { 'E', 0x0E, 0x08, {}, '-', "EF.DIR and EF.ATR access services: by READ BINARY command (transparent structure)" },
  { 'E', 0x01, 0x00, {}, '-', "Card with MF" },
  { 'E', 0x01, 0x01, {}, '-', "Card without MF" },
 } },
} },
{ "card_caps1", "iso7816_card_capabilities_get_string_list", { 0x00 }, {
 { 0, {
  { 'E', 0x80, 0x80, {}, '-', "DF selection: by full DF NAME" },
  { 'E', 0x40, 0x40, {}, '-', "DF selection: by partial DF NAME" },
  { 'E', 0x20, 0x20, {}, '-', "DF selection: by path" },
  { 'E', 0x10, 0x10, {}, '-', "DF selection: by file identifier" },
  { 'E', 0x08, 0x08, {}, '-', "DF selection: implicit" },
  { 'E', 0x04, 0x04, {}, '-', "Short EF identifier supported" },
  { 'E', 0x02, 0x02, {}, '-', "Record number supported" },
  { 'E', 0x01, 0x01, {}, '-', "Record identifier supported" },
 } },
} },
{ "card_caps2", "iso7816_card_capabilities_get_string_list", { 0x00, 0x00 }, {
 { 0, {
  { 'E', 0x80, 0x80, {}, '-', "DF selection: by full DF NAME" },
  { 'E', 0x40, 0x40, {}, '-', "DF selection: by partial DF NAME" },
  { 'E', 0x20, 0x20, {}, '-', "DF selection: by path" },
  { 'E', 0x10, 0x10, {}, '-', "DF selection: by file identifier" },
  { 'E', 0x08, 0x08, {}, '-', "DF selection: implicit" },
  { 'E', 0x04, 0x04, {}, '-', "Short EF identifier supported" },
  { 'E', 0x02, 0x02, {}, '-', "Record number supported" },
  { 'E', 0x01, 0x01, {}, '-', "Record identifier supported" },
 } },
 { 1, {
  { 'E', 0x80, 0x80, {}, '-', "EFs of TLV structure supported" },
  { 'E', 0x60, 0x00, {}, '-', "Behaviour of write functions: one-time write" },
  { 'E', 0x60, 0x20, {}, '-', "Behaviour of write functions: proprietary" },
  { 'E', 0x60, 0x40, {}, '-', "Behaviour of write functions: write OR" },
  { 'E', 0x60, 0x60, {}, '-', "Behaviour of write functions: write AND" },
  { 'E', 0x10, 0x00, {}, '-', "FF as first byte of BER-TLV tag is invalid / padding" },
  { 'E', 0x10, 0x10, {}, '-', "FF as first byte of BER-TLV tag is valid" },
  { 'X', 0x0F, 0x00, {}, 'p', "Data unit size: %u bytes" },
 } },
} },
{ "card_caps3", "iso7816_card_capabilities_get_string_list", { 0x00, 0x00, 0x00 }, {
 { 0, {
  { 'E', 0x80, 0x80, {}, '-', "DF selection: by full DF NAME" },
  { 'E', 0x40, 0x40, {}, '-', "DF selection: by partial DF NAME" },
  { 'E', 0x20, 0x20, {}, '-', "DF selection: by path" },
  { 'E', 0x10, 0x10, {}, '-', "DF selection: by file identifier" },
  { 'E', 0x08, 0x08, {}, '-', "DF selection: implicit" },
  { 'E', 0x04, 0x04, {}, '-', "Short EF identifier supported" },
  { 'E', 0x02, 0x02, {}, '-', "Record number supported" },
  { 'E', 0x01, 0x01, {}, '-', "Record identifier supported" },
 } },
 { 1, {
  { 'E', 0x80, 0x80, {}, '-', "EFs of TLV structure supported" },
  { 'E', 0x60, 0x00, {}, '-', "Behaviour of write functions: one-time write" },
  { 'E', 0x60, 0x20, {}, '-', "Behaviour of write functions: proprietary" },
  { 'E', 0x60, 0x40, {}, '-', "Behaviour of write functions: write OR" },
  { 'E', 0x60, 0x60, {}, '-', "Behaviour of write functions: write AND" },
  { 'E', 0x10, 0x00, {}, '-', "FF as first byte of BER-TLV tag is invalid / padding" },
  { 'E', 0x10, 0x10, {}, '-', "FF as first byte of BER-TLV tag is valid" },
  { 'X', 0x0F, 0x00, {}, 'p', "Data unit size: %u bytes" },
 } },
 { 2, {
  { 'E', 0x80, 0x80, {}, '-', "Command chaining" },
  { 'E', 0x40, 0x40, {}, '-', "Extended Lc and Le fields" },
  { 'E', 0x18, 0x00, {}, '-', "No logical channel" },
  { 'E', 0x08, 0x08, {}, '-', "Logical channel number assignment: by the interface device" },
  { 'E', 0x10, 0x10, {}, '-', "Logical channel number assignment: by the card" },
  { 'X', 0x07, 0x07, {}, 'c', "Maximum number of logical channels: %u" },
  { 'E', 0x07, 0x07, {}, '-', "Maximum number of logical channels: 8 or more" },
 } },
} },
