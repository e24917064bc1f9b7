// Simulated S3 service behind the stand-in for the AWS SDK (sim/aws).
#include <algorithm>
#include <stdlib.h>
#include "aws/fake_aws.h"
#include "internal.h"

namespace sim {
namespace s3 {
namespace {
struct Version {
    std::string id, data;
    bool deleted = false;
};
struct Object {
    std::vector<Version> versions;  // the last one is the current one
    int error = 0;
};
struct Service {
    std::map<std::string, std::map<std::string, Object>> buckets;
    std::vector<int> pages;
    std::size_t page = 0;
    std::vector<std::uint64_t> delays;
    std::size_t delay = 0;
    std::uint64_t requests = 0;
    int last = 0;
    Client last_client;
    int clients = 0, inits = 0;
};
Service &svc()
{
    static Service *s = new Service;
    return *s;
}
using E = Aws::S3::S3Errors;
using Err = Aws::Client::AWSError<E>;

// Injected failures of a request, in the order of their flavours.
const E flavours[] = {E::SERVICE_UNAVAILABLE, E::SLOW_DOWN, E::NETWORK_CONNECTION, E::REQUEST_TIMEOUT, E::ACCESS_DENIED, E::INTERNAL_FAILURE, E::THROTTLING, E::UNKNOWN};

bool failing(E &e)
{
    std::uint32_t k = fault(f_s3_fail, 1 + sizeof flavours / sizeof *flavours);
    if (k == 0) return false;
    e = flavours[k - 1];
    svc().last = static_cast<int>(e);
    return true;
}
void latency(const char *what)
{
    ++svc().requests;
    if (!on()) return;
    point(what, &svc());
    auto &d = svc().delays;
    if (!d.empty()) {
        std::uint64_t us = d[svc().delay++ % d.size()];
        if (us != 0) {
            fault_injected(f_s3_delay);
            sleep_us(us);
        }
    }
}
// 0: found.
E find(const std::string &bucket, const std::string &key, const std::string &version, bool head, const Version *&out)
{
    auto b = svc().buckets.find(bucket);
    if (b == svc().buckets.end()) return head ? E::RESOURCE_NOT_FOUND : E::NO_SUCH_BUCKET;
    auto o = b->second.find(key);
    E missing = head ? E::RESOURCE_NOT_FOUND : E::NO_SUCH_KEY;
    if (o == b->second.end()) return missing;
    if (o->second.error != 0) return static_cast<E>(o->second.error);
    if (version.empty()) {
        if (o->second.versions.empty() || o->second.versions.back().deleted) return missing;
        out = &o->second.versions.back();
        return E{};
    }
    for (auto &v : o->second.versions)
        if (v.id == version && !v.deleted) {
            out = &v;
            return E{};
        }
    return missing;
}
bool number(const std::string &s, std::size_t &pos, std::uint64_t &v)
{
    std::size_t b = pos;
    v = 0;
    while (pos < s.size() && s[pos] >= '0' && s[pos] <= '9') v = v * 10 + static_cast<std::uint64_t>(s[pos++] - '0');
    return pos > b;
}
}  // namespace

void put(const std::string &bucket, const std::string &key, const std::string &data, const std::string &version)
{
    Quiet q;
    svc().buckets[bucket][key].versions.push_back({version, data});
}
void make_bucket(const std::string &bucket)
{
    Quiet q;
    svc().buckets[bucket];
}
void remove(const std::string &bucket, const std::string &key)
{
    Quiet q;
    auto &o = svc().buckets[bucket][key];
    o.versions.push_back({"", "", true});
}
void set_error(const std::string &bucket, const std::string &key, int err)
{
    Quiet q;
    svc().buckets[bucket][key].error = err;
}
void set_pages(const std::vector<int> &sizes) { Quiet q; svc().pages = sizes; }
void set_delays(const std::vector<std::uint64_t> &us) { Quiet q; svc().delays = us; }
std::uint64_t requests() { return svc().requests; }
int last_error() { return svc().last; }
const Client &last_client() { return svc().last_client; }
int clients() { return svc().clients; }
}  // namespace s3
}  // namespace sim

namespace Aws {
using sim::Quiet;
using namespace sim::s3;

void InitAPI(const SDKOptions &) { ++svc().inits; }
void ShutdownAPI(const SDKOptions &) { --svc().inits; }
Auth::DefaultAWSCredentialsProviderChain::DefaultAWSCredentialsProviderChain() = default;
Auth::AWSCredentials Auth::DefaultAWSCredentialsProviderChain::GetAWSCredentials() { return {"default-id", "default-secret", "default-token"}; }

S3::S3Client::S3Client(const Auth::AWSCredentials &cred, const Client::ClientConfiguration &conf) : credentials{cred}, configuration{conf}
{
    Quiet q;
    ++svc().clients;
    svc().last_client = {cred.GetAWSAccessKeyId(), cred.GetAWSSecretKey(), cred.GetSessionToken(), conf.profileName, conf.region, conf.scheme == Http::Scheme::HTTPS};
}
S3::S3Client::~S3Client() { --svc().clients; }

S3::Model::HeadObjectOutcome S3::S3Client::HeadObject(const Model::HeadObjectRequest &r) const
{
    Quiet q;
    latency("s3 head");
    E e{};
    if (failing(e)) return Err{e};
    const Version *v = nullptr;
    e = find(r.bucket, r.key, r.version, true, v);
    if (v == nullptr) return Err{e};
    Model::HeadObjectResult out;
    out.size = static_cast<long long>(v->data.size());
    return out;
}

S3::Model::GetObjectOutcome S3::S3Client::GetObject(const Model::GetObjectRequest &r) const
{
    Quiet q;
    latency("s3 get");
    E e{};
    if (failing(e)) return Err{e};
    const Version *v = nullptr;
    e = find(r.bucket, r.key, r.version, false, v);
    if (v == nullptr) return Err{e};
    std::uint64_t a = 0, b = v->data.size();
    const std::string pre = "bytes=";
    std::size_t pos = pre.size();
    // A range that makes no sense is ignored; one behind the end is an error.
    if (r.range.compare(0, pre.size(), pre) == 0 && number(r.range, pos, a) && pos < r.range.size() && r.range[pos++] == '-' &&
        (pos == r.range.size() || (number(r.range, pos, b) && pos == r.range.size())) && b >= a) {
        if (a >= v->data.size()) return Err{E::UNKNOWN};
    }
    else {
        a = 0;
        b = v->data.size();
    }
    std::uint64_t n = std::min<std::uint64_t>(b, v->data.size() - 1) - a + 1;
    if (v->data.empty()) n = 0;
    Model::GetObjectResult out;
    *out.body << v->data.substr(a, n);
    return Model::GetObjectOutcome{std::move(out)};
}

S3::Model::ListObjectsV2Outcome S3::S3Client::ListObjectsV2(const Model::ListObjectsV2Request &r) const
{
    Quiet q;
    latency("s3 list");
    E e{};
    if (failing(e)) return Err{e};
    auto b = svc().buckets.find(r.bucket);
    if (b == svc().buckets.end()) return Err{E::NO_SUCH_BUCKET};
    std::size_t max = static_cast<std::size_t>(std::min(r.max_keys, 1000));
    if (!svc().pages.empty()) max = std::min<std::size_t>(max, static_cast<std::size_t>(svc().pages[svc().page++ % svc().pages.size()]));
    Model::ListObjectsV2Result out;
    // The token names the last key looked at.
    auto it = r.token.empty() ? b->second.begin() : b->second.upper_bound(r.token.substr(1));
    std::string last = r.token;
    for (; it != b->second.end(); ++it) {
        if (it->first.compare(0, r.prefix.size(), r.prefix) != 0) continue;
        if (it->second.versions.empty() || it->second.versions.back().deleted) continue;
        if (out.contents.size() >= max) {
            out.truncated = true;
            break;
        }
        out.contents.emplace_back(it->first);
        last = "T" + it->first;
    }
    if (out.truncated) out.token = last.empty() ? "T" : last;
    return Model::ListObjectsV2Outcome{std::move(out)};
}
}  // namespace Aws
