// No network: every request fails
#include <curl/curl.h>
extern "C" {
void curl_easy_cleanup(CURL*) {}
CURL* curl_easy_init(void) { return nullptr; }
#undef curl_easy_setopt
CURLcode curl_easy_setopt(CURL*, CURLoption, ...) { return CURLE_OK; }
CURLcode curl_easy_perform(CURL*) { return CURLE_COULDNT_CONNECT; }
const char* curl_easy_strerror(CURLcode) { return "no network"; }
#undef curl_easy_getinfo
CURLcode curl_easy_getinfo(CURL*, CURLINFO, ...) { return CURLE_OK; }
CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup(void) {}
}
