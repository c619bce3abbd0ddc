---------------------------- MODULE Nums ----------------------------
(* Generated by tools/gen_nums.py: facts about number tokens. *)
EXTENDS Integers, TLC

NumTokens == {"$-inf", "-1.7976931348623157e308", "-1e19", "-9223372036854775809", "-9223372036854775808", "-9223372036854775807", "-4294967296", "-1000.5", "-5", "-2", "-1.5", "-1", "-0.5", "-5e-324", "-0.0", "0", "0.0", "5e-324", "2.2250738585072014e-308", "1e-7", "0.1", "0.3", "0.5", "1", "1.0", "1.5", "2", "2.0", "2.5", "3", "4", "5", "5.0", "7", "10", "15", "16", "17", "32", "64", "100", "128", "200", "255", "256", "404", "500", "512", "600", "1023", "1024", "1025", "2048", "65535", "65536", "1e5", "4294967295", "4294967296", "9007199254740993", "9223372036854775806", "9223372036854775807", "9223372036854775808", "1e19", "18446744073709551615", "18446744073709551616", "1e300", "1.7976931348623157e308", "$inf", "$nan"}

Special == {"$-inf", "$inf", "$nan"}

Rank ==
  ("$-inf" :> 0) @@ ("-1.7976931348623157e308" :> 1) @@ ("-1e19" :> 2) @@ ("-9223372036854775809" :> 3) @@ ("-9223372036854775808" :> 4) @@ ("-9223372036854775807" :> 5) @@ ("-4294967296" :> 6) @@ ("-1000.5" :> 7) @@ ("-5" :> 8) @@ ("-2" :> 9) @@ ("-1.5" :> 10) @@ ("-1" :> 11) @@ ("-0.5" :> 12) @@ ("-5e-324" :> 13) @@ ("-0.0" :> 14) @@ ("0" :> 14) @@ ("0.0" :> 14) @@ ("5e-324" :> 15) @@ ("2.2250738585072014e-308" :> 16) @@ ("1e-7" :> 17) @@ ("0.1" :> 18) @@ ("0.3" :> 19) @@ ("0.5" :> 20) @@ ("1" :> 21) @@ ("1.0" :> 21) @@ ("1.5" :> 22) @@ ("2" :> 23) @@ ("2.0" :> 23) @@ ("2.5" :> 24) @@ ("3" :> 25) @@ ("4" :> 26) @@ ("5" :> 27) @@ ("5.0" :> 27) @@ ("7" :> 28) @@ ("10" :> 29) @@ ("15" :> 30) @@ ("16" :> 31) @@ ("17" :> 32) @@ ("32" :> 33) @@ ("64" :> 34) @@ ("100" :> 35) @@ ("128" :> 36) @@ ("200" :> 37) @@ ("255" :> 38) @@ ("256" :> 39) @@ ("404" :> 40) @@ ("500" :> 41) @@ ("512" :> 42) @@ ("600" :> 43) @@ ("1023" :> 44) @@ ("1024" :> 45) @@ ("1025" :> 46) @@ ("2048" :> 47) @@ ("65535" :> 48) @@ ("65536" :> 49) @@ ("1e5" :> 50) @@ ("4294967295" :> 51) @@ ("4294967296" :> 52) @@ ("9007199254740993" :> 53) @@ ("9223372036854775806" :> 54) @@ ("9223372036854775807" :> 55) @@ ("9223372036854775808" :> 56) @@ ("1e19" :> 57) @@ ("18446744073709551615" :> 58) @@ ("18446744073709551616" :> 59) @@ ("1e300" :> 60) @@ ("1.7976931348623157e308" :> 61) @@ ("$inf" :> 62)

FRank ==
  ("$-inf" :> 0) @@ ("-1.7976931348623157e308" :> 1) @@ ("-1e19" :> 2) @@ ("-9223372036854775809" :> 3) @@ ("-9223372036854775808" :> 3) @@ ("-9223372036854775807" :> 3) @@ ("-4294967296" :> 4) @@ ("-1000.5" :> 5) @@ ("-5" :> 6) @@ ("-2" :> 7) @@ ("-1.5" :> 8) @@ ("-1" :> 9) @@ ("-0.5" :> 10) @@ ("-5e-324" :> 11) @@ ("-0.0" :> 12) @@ ("0" :> 12) @@ ("0.0" :> 12) @@ ("5e-324" :> 13) @@ ("2.2250738585072014e-308" :> 14) @@ ("1e-7" :> 15) @@ ("0.1" :> 16) @@ ("0.3" :> 17) @@ ("0.5" :> 18) @@ ("1" :> 19) @@ ("1.0" :> 19) @@ ("1.5" :> 20) @@ ("2" :> 21) @@ ("2.0" :> 21) @@ ("2.5" :> 22) @@ ("3" :> 23) @@ ("4" :> 24) @@ ("5" :> 25) @@ ("5.0" :> 25) @@ ("7" :> 26) @@ ("10" :> 27) @@ ("15" :> 28) @@ ("16" :> 29) @@ ("17" :> 30) @@ ("32" :> 31) @@ ("64" :> 32) @@ ("100" :> 33) @@ ("128" :> 34) @@ ("200" :> 35) @@ ("255" :> 36) @@ ("256" :> 37) @@ ("404" :> 38) @@ ("500" :> 39) @@ ("512" :> 40) @@ ("600" :> 41) @@ ("1023" :> 42) @@ ("1024" :> 43) @@ ("1025" :> 44) @@ ("2048" :> 45) @@ ("65535" :> 46) @@ ("65536" :> 47) @@ ("1e5" :> 48) @@ ("4294967295" :> 49) @@ ("4294967296" :> 50) @@ ("9007199254740993" :> 51) @@ ("9223372036854775806" :> 52) @@ ("9223372036854775807" :> 52) @@ ("9223372036854775808" :> 52) @@ ("1e19" :> 53) @@ ("18446744073709551615" :> 54) @@ ("18446744073709551616" :> 54) @@ ("1e300" :> 55) @@ ("1.7976931348623157e308" :> 56) @@ ("$inf" :> 57)

IntTokens == {"-9223372036854775809", "-9223372036854775808", "-9223372036854775807", "-4294967296", "-5", "-2", "-1", "0", "1", "2", "3", "4", "5", "7", "10", "15", "16", "17", "32", "64", "100", "128", "200", "255", "256", "404", "500", "512", "600", "1023", "1024", "1025", "2048", "65535", "65536", "4294967295", "4294967296", "9007199254740993", "9223372036854775806", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616"}

I64 == {"-9223372036854775808", "-9223372036854775807", "-4294967296", "-5", "-2", "-1", "0", "1", "2", "3", "4", "5", "7", "10", "15", "16", "17", "32", "64", "100", "128", "200", "255", "256", "404", "500", "512", "600", "1023", "1024", "1025", "2048", "65535", "65536", "4294967295", "4294967296", "9007199254740993", "9223372036854775806", "9223372036854775807"}

U64 == {"0", "1", "2", "3", "4", "5", "7", "10", "15", "16", "17", "32", "64", "100", "128", "200", "255", "256", "404", "500", "512", "600", "1023", "1024", "1025", "2048", "65535", "65536", "4294967295", "4294967296", "9007199254740993", "9223372036854775806", "9223372036854775807", "9223372036854775808", "18446744073709551615"}

U32 == {"0", "1", "2", "3", "4", "5", "7", "10", "15", "16", "17", "32", "64", "100", "128", "200", "255", "256", "404", "500", "512", "600", "1023", "1024", "1025", "2048", "65535", "65536", "4294967295"}

U16 == {"0", "1", "2", "3", "4", "5", "7", "10", "15", "16", "17", "32", "64", "100", "128", "200", "255", "256", "404", "500", "512", "600", "1023", "1024", "1025", "2048", "65535"}

U8 == {"0", "1", "2", "3", "4", "5", "7", "10", "15", "16", "17", "32", "64", "100", "128", "200", "255"}

NonZeroU64 == {"1", "2", "3", "4", "5", "7", "10", "15", "16", "17", "32", "64", "100", "128", "200", "255", "256", "404", "500", "512", "600", "1023", "1024", "1025", "2048", "65535", "65536", "4294967295", "4294967296", "9007199254740993", "9223372036854775806", "9223372036854775807", "9223372036854775808", "18446744073709551615"}

F64 == {"$-inf", "-1.7976931348623157e308", "-1e19", "-9223372036854775809", "-9223372036854775808", "-9223372036854775807", "-4294967296", "-1000.5", "-5", "-2", "-1.5", "-1", "-0.5", "-5e-324", "-0.0", "0", "0.0", "5e-324", "2.2250738585072014e-308", "1e-7", "0.1", "0.3", "0.5", "1", "1.0", "1.5", "2", "2.0", "2.5", "3", "4", "5", "5.0", "7", "10", "15", "16", "17", "32", "64", "100", "128", "200", "255", "256", "404", "500", "512", "600", "1023", "1024", "1025", "2048", "65535", "65536", "1e5", "4294967295", "4294967296", "9007199254740993", "9223372036854775806", "9223372036854775807", "9223372036854775808", "1e19", "18446744073709551615", "18446744073709551616", "1e300", "1.7976931348623157e308", "$inf", "$nan"}

FiniteF64 == {"-1.7976931348623157e308", "-1e19", "-9223372036854775809", "-9223372036854775808", "-9223372036854775807", "-4294967296", "-1000.5", "-5", "-2", "-1.5", "-1", "-0.5", "-5e-324", "-0.0", "0", "0.0", "5e-324", "2.2250738585072014e-308", "1e-7", "0.1", "0.3", "0.5", "1", "1.0", "1.5", "2", "2.0", "2.5", "3", "4", "5", "5.0", "7", "10", "15", "16", "17", "32", "64", "100", "128", "200", "255", "256", "404", "500", "512", "600", "1023", "1024", "1025", "2048", "65535", "65536", "1e5", "4294967295", "4294967296", "9007199254740993", "9223372036854775806", "9223372036854775807", "9223372036854775808", "1e19", "18446744073709551615", "18446744073709551616", "1e300", "1.7976931348623157e308"}

PositiveF64 == {"5e-324", "2.2250738585072014e-308", "1e-7", "0.1", "0.3", "0.5", "1", "1.0", "1.5", "2", "2.0", "2.5", "3", "4", "5", "5.0", "7", "10", "15", "16", "17", "32", "64", "100", "128", "200", "255", "256", "404", "500", "512", "600", "1023", "1024", "1025", "2048", "65535", "65536", "1e5", "4294967295", "4294967296", "9007199254740993", "9223372036854775806", "9223372036854775807", "9223372036854775808", "1e19", "18446744073709551615", "18446744073709551616", "1e300", "1.7976931348623157e308", "$inf"}

======================================================================
