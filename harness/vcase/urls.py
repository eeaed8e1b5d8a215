from django.http import Http404, HttpResponse, HttpResponseRedirect, JsonResponse, StreamingHttpResponse
from django.core.exceptions import PermissionDenied, SuspiciousOperation
from django.urls import path

JOB = {'work': None, 'outcome': None}     # what the next request does


class Failure(Exception):
    pass


def view(request):
    """Changes data and ends in one of the ways views end."""
    JOB['work']()
    outcome = JOB['outcome']
    if outcome == '404':
        raise Http404('gone')
    if outcome == '403':
        raise PermissionDenied
    if outcome == '400':
        raise SuspiciousOperation('odd')
    if outcome == '500':
        raise Failure('broken')
    if outcome == 'redirect':
        r = HttpResponseRedirect('/elsewhere/')
    elif outcome == 'stream':
        r = StreamingHttpResponse([b'a', b'b', request.method.encode()])
    elif outcome == 'json':
        r = JsonResponse({'method': request.method})
    elif outcome == '204':
        r = HttpResponse(status=204)
    elif outcome == 'error':
        r = HttpResponse('sorry', status=503)
    else:
        r = HttpResponse('fine ' + request.method)
    r['X-Seen'] = outcome
    r.set_cookie('c', outcome)
    return r


urlpatterns = [path('do/', view)]
