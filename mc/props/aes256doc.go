package props

// aes256Doc is a document encrypted with AES-256 by write.SetupEncryptionWithPasswords, kept so that
// every run corrupts the same bytes.
const aes256Doc = "" +
	"JVBERi0xLjcKJeLjz9MKMSAwIG9iago8PAovRmlsdGVyIC9TdGFuZGFyZAovViA1Ci9SIDUKL0xlbmd0aCAyNTYKL1AgLTQ0Ci9V" +
	"IDwyMjk4MThDQzk2MTVDNjcxQkJFNzZFRjhFMUQwRjhEOTA2NTIxMDkwNDczRTQyMzFEQ0VFRjgxNUM4RENEMDlFRkFBMEZDODE1" +
	"OTIxN0E5NzgzMEExMjRFOTE1RkU0QTU+Ci9PIDxEMDg1QTA1MEI4MDVFODM2QTgxRjRCRkRCRkE1MDYxMDBBMTM1ODJDOEYzRjIz" +
	"OTdEQzVCRjEzRjE2RjY0NUZCMDRBRjhCMEE4MDM5MzAwNDAyQThEODY1OEYzNTUzMzY+Ci9VRSA8MUEzRjE3MzRFQUNGNDRCRTM0" +
	"MDgzMzY2NEY5NjI0Q0QxMTJBODhBMzEwNjRFMjI4Q0E4QTMwNjlBMzNCODQ2RjgxRjYwNkQ5RDhDQTcyOUNCMjlFQkMxMzc4MzQ1" +
	"NTJCPgovT0UgPDU0QjgwQTQyNzZDMTg2RUZBRTI5QTYzREVFQkFCNTg4QjA0NTBFRTNEODRGMEJCRTE4QTkwM0E3NUUwOTFDRDcx" +
	"MEZCNjREOTExNTdBRDBCQzdCNUY0MjlGNjg0OTg4QT4KPj4KZW5kb2JqCjIgMCBvYmoKPDwvVHlwZS9DYXRhbG9nL1BhZ2VzIDk5" +
	"IDAgUj4+CmVuZG9iagozIDAgb2JqCjw8L0xlbmd0aCAzMiA+PgpzdHJlYW0KoE7XxvM3hm6dY1HPXfA5PcS13BTURBN7yQfwwcm5" +
	"vGsKZW5kc3RyZWFtCmVuZG9iagp4cmVmCjAgNAowMDAwMDAwMDAwIDY1NTM1IGYgCjAwMDAwMDAwMTUgMDAwMDAgbiAKMDAwMDAw" +
	"MDQ5MyAwMDAwMCBuIAowMDAwMDAwNTM5IDAwMDAwIG4gCnRyYWlsZXIKPDwKL1NpemUgNAovUm9vdCAyIDAgUgovRW5jcnlwdCAx" +
	"IDAgUgovSUQgWzxFNjNGMEJFM0VCNTY0QThEODYzOTQ0RDg2ODNBQ0JENz48RTYzRjBCRTNFQjU2NEE4RDg2Mzk0NEQ4NjgzQUNC" +
	"RDc+XQo+PgpzdGFydHhyZWYKNjIwCiUlRU9GCg=="
